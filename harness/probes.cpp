// Measures of presortedness which need no storage, and the documented maxima (C06, C07).
#include "common.h"
#include <cpp-sort/probes/runs.h>
#include <cpp-sort/probes/mono.h>
#include <cpp-sort/probes/dis.h>
#include <cpp-sort/probes/osc.h>
#include <cpp-sort/detail/is_p_sorted.h>
namespace pd = cppsort::probe::detail;
using std::ptrdiff_t;
bool h_ips(Elem* f, Elem* l, Elem* p, Comp c, Proj pr) { return cppsort::detail::is_p_sorted(f, l, p, c, pr); }
ptrdiff_t h_runs(Elem* f, Elem* l, Comp c, Proj p) { return pd::runs_impl{}(f, l, c, p); }
ptrdiff_t h_mono(Elem* f, Elem* l, Comp c, Proj p) { return pd::mono_impl{}(f, l, c, p); }
ptrdiff_t h_dis(Elem* f, Elem* l, Comp c, Proj p) { return pd::inplace_dis_probe_algo(f, l, l - f, c, p); }
ptrdiff_t h_osc(Elem* f, Elem* l, Comp c, Proj p) { return pd::inplace_osc_algo(f, l, l - f, c, p); }
// C07: the value never exceeds the documented maximum
bool within_runs(Elem* f, Elem* l, Comp c, Proj p) { return pd::runs_impl{}(f, l, c, p) <= pd::runs_impl::max_for_size(l - f); }
bool within_mono(Elem* f, Elem* l, Comp c, Proj p) { return pd::mono_impl{}(f, l, c, p) <= pd::mono_impl::max_for_size(l - f); }
bool within_dis(Elem* f, Elem* l, Comp c, Proj p) { return pd::inplace_dis_probe_algo(f, l, l - f, c, p) <= pd::dis_impl::max_for_size(l - f); }
