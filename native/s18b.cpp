// C18: function pointers, generic functions, results, state, integer sorters
#include "s18.h"
int main(int c, char** v) { init(c, v); auto in = inputs();
  for (auto& k : in) { 
    sn = "full_sorter"; fp<full_sorter>(k); sn = "cmp_sorter"; fp<cmp_sorter>(k); sn = "coll_sorter"; fp<coll_sorter>(k); sn = "quick_sorter"; fp<quick_sorter>(k); sn = "std_sorter"; fp<std_sorter>(k); sn = "default_sorter"; fp<default_sorter>(k);
    generic("no argument", k, LT, ID); generic("greater", k, Gt{}, ID, std::greater<>{}); generic("projection", k, LT, &W::neg, &W::neg); generic("comparison and projection", k, Md{}, &W::k, Md{}, &W::k); generic("greater and projection", k, Gt{}, &W::k, std::greater<>{}, &W::k);
    // results and state
    { tick(); auto x = mk(k); snprintf(ctx, sizeof ctx, "results on %s", show(k).c_str()); int w = int(17 + k.size()); full_sorter f; cmp_sorter cs; proj_sorter ps; coll_sorter cl; stateful_sorter ss(77);
      rt("full(v)", f(x), w); rt("full(i,i)", f(x.begin(), x.end()), w); rt("full(v,c)", f(x, Gt{}), w); rt("full(v,p)", f(x, &W::neg), w); rt("full(v,c,p)", f(x, Gt{}, &W::k), w); rt("full(i,i,c,p)", f(x.begin(), x.end(), Gt{}, &W::k), w); rt("cmp(v)", cs(x), w); rt("cmp(v,p)", cs(x, &W::neg), w); rt("cmp(v,c,p)", cs(x, Md{}, &W::k), w); rt("cmp(i,i,c,p)", cs(x.begin(), x.end(), Md{}, &W::k), w); rt("proj(v)", ps(x), w); rt("proj(v,less,p)", ps(x, std::less<>{}, &W::neg), w); rt("coll(v)", cl(x), w + 1000); rt("coll(i,i)", cl(x.begin(), x.end()), w); rt("coll(v,c)", cl(x, Gt{}), w + 1000); rt("coll(v,p)", cl(x, &W::neg), w + 1000); rt("coll(v,c,p)", cl(x, Gt{}, &W::k), w + 1000);
      rt("stateful", *ss(x, Gt{}, &W::k), 77); rt("stateful", *ss(x), 77); rt("stateful", *ss(x, &W::neg), 77); stateful_sorter s2 = ss; rt("copied stateful", *s2(x, Gt{}), 77); rt("sort(stateful)", *cppsort::sort(ss, x), 77); rt("sort(stateful, c)", *cppsort::sort(ss, x, Gt{}), 77); rt("sort(stateful,c,p)", *cppsort::sort(ss, x.begin(), x.end(), Gt{}, &W::k), 77);
      int(*fp1)(std::vector<W>&) = f; rt("fptr", fp1(x), w); int(*fp2)(std::vector<W>&, Gt, int W::*) = f; rt("fptr", fp2(x, Gt{}, &W::k), w); int(*fp3)(std::vector<W>::iterator, std::vector<W>::iterator) = f; rt("fptr", fp3(x.begin(), x.end()), w); int(*fp4)(std::vector<W>&) = cl; rt("fptr of a collection sorter", fp4(x), w + 1000);
      auto ad = indirect_adapter<stateful_sorter>(ss); rt("indirect adapter of a stateful sorter", *ad(x), 77); auto sa = stable_adapter<stateful_sorter>(ss); rt("stable adapter of a stateful sorter", *sa(x), 77); auto sw = schwartz_adapter<stateful_sorter>(ss); rt("schwartz adapter of a stateful sorter", *sw(x, &W::neg), 77); auto oo = out_of_place_adapter<stateful_sorter>(ss); rt("out of place adapter of a stateful sorter", *oo(x), 77); auto hy = hybrid_adapter<stateful_sorter>(ss); rt("hybrid adapter of a stateful sorter", *hy(x), 77); auto se = self_sort_adapter<stateful_sorter>(ss); rt("self-sort adapter of a stateful sorter", *se(x), 77); }
  }
  for (auto& k : in) { std::vector<int> x(k.begin(), k.end()), y; tick(); snprintf(ctx, sizeof ctx, "integers %s", show(k).c_str()); auto ck = [&](const char* n, bool gt) { auto z = k; std::sort(z.begin(), z.end()); if (gt) std::reverse(z.begin(), z.end()); if (y != z) fail("C18", "%s", n); y = x; }; y = x;
    counting_sorter{}(y); ck("counting", 0); counting_sorter{}(y.begin(), y.end()); ck("counting it", 0); counting_sorter{}(y, std::greater<>{}); ck("counting greater", 1); counting_sorter{}(y.begin(), y.end(), std::greater<>{}); ck("counting it greater", 1); counting_sorter{}(y, std::less<>{}); ck("counting less", 0);
    spread_sorter{}(y); ck("spread", 0); spread_sorter{}(y, std::less<>{}); ck("spread less", 0); ska_sorter{}(y); ck("ska", 0); ska_sorter{}(y.begin(), y.end(), std::less<>{}); ck("ska less", 0); ska_sorter{}(y, std::less<>{}, U::identity{}); ck("ska less identity", 0); void(*f)(std::vector<int>&) = counting_sorter{}; f(y); ck("counting fptr", 0); void(*h)(std::vector<int>&, std::greater<>) = counting_sorter{}; h(y, std::greater<>{}); ck("counting fptr greater", 1);
    std::vector<std::string> q, r; for (int a : k) q.push_back(std::to_string(a)); r = q; spread_sorter{}(r, std::greater<>{}); auto z = q; std::sort(z.begin(), z.end(), std::greater<>{}); if (r != z) fail("C18", "spread_sorter strings greater"); 
#if __cplusplus > 201703L
    y = x; quick_sorter{}(y, std::ranges::less{}); ck("ranges::less", 0); quick_sorter{}(y, std::ranges::greater{}); ck("ranges::greater", 1); quick_sorter{}(y, std::identity{}); ck("std::identity", 0); ska_sorter{}(y, std::ranges::less{}); ck("ska ranges::less", 0); ska_sorter{}(y, std::identity{}); ck("ska std::identity", 0); ska_sorter{}(y, std::ranges::less{}, std::identity{}); ck("ska both", 0); counting_sorter{}(y, std::ranges::greater{}); ck("counting ranges::greater", 1);
#endif
  }
  return finish(); }
