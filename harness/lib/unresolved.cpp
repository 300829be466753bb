// test library with a symbol nobody defines
extern "C" {
int xv_defined_nowhere_at_all();
int xv_id() { return 99; }
int xv_lazy() { return xv_defined_nowhere_at_all(); }
}
