// test library: XV_ID tells the copies apart
extern "C" {
int xv_id() { return XV_ID; }
int xv_call_id() { return xv_id(); }
int xv_data = XV_ID * 100;
#if XV_ID == 1
int xv_only_in_1() { return 11; }
#endif
}
