// test library for the simulator to load: XV_ID tells the copies apart, the
// executable is told of the calls
namespace Smp { class ISimulator; namespace Publication { class ITypeRegistry; } }
extern "C" {
bool xv_initialise(int, ::Smp::ISimulator *, ::Smp::Publication::ITypeRegistry *);
bool xv_finalise(int, ::Smp::ISimulator *);
#ifndef XV_NOINITIALISE
bool Initialise(::Smp::ISimulator *s, ::Smp::Publication::ITypeRegistry *t) { return xv_initialise(XV_ID, s, t); }
#endif
#ifndef XV_NOFINALISE
bool Finalise(::Smp::ISimulator *s) { return xv_finalise(XV_ID, s); }
#endif
}
