// Independent calendar arithmetic: instants as whole microseconds since the first day of year 0.
#ifndef CIVIL_H
#define CIVIL_H
#include <cstdint>
namespace civil {
typedef long long I;
struct F { I y, m, d, s, u; };                      // month and day from 0
inline I fdiv(I a, I b) { I q = a / b; return (a % b != 0 && ((a < 0) != (b < 0))) ? q - 1 : q; }
inline bool leap(I y, bool std) { return std && y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
inline I mlen(I y, I m, bool std) { static const int n[12] = {31,28,31,30,31,30,31,31,30,31,30,31}; return n[m] + (m == 1 && leap(y, std) ? 1 : 0); }
inline I leaps_before(I y, bool std) { if (!std) return 0; I p = y - 1; return fdiv(p, 4) - fdiv(p, 100) + fdiv(p, 400) + 1; } // year 0 is leap
inline I day0(I y, I m, bool std) {                  // day number of the first of the month
	y += fdiv(m, 12); m -= fdiv(m, 12) * 12;
	I n = 365 * y + leaps_before(y, std);
	for (I k = 0; k < m; k++) n += mlen(y, k, std);
	return n;
}
const I DAY = 86400LL * 1000000LL;
inline I micros(const F & f, bool std) { return (day0(f.y, f.m, std) + f.d) * DAY + f.s * 1000000LL + f.u; }
inline F fields(I t, bool std) {
	F f; I n = fdiv(t, DAY); I r = t - n * DAY;
	f.s = r / 1000000; f.u = r % 1000000;
	f.y = fdiv(n, 366); while (day0(f.y + 1, 0, std) <= n) f.y++;
	f.m = 0; while (f.m < 11 && day0(f.y, f.m + 1, std) <= n) f.m++;
	f.d = n - day0(f.y, f.m, std);
	return f;
}
inline F add(const F & a, const F & d, bool std) { F f = {a.y + d.y, a.m + d.m, a.d + d.d, a.s + d.s, a.u + d.u}; return fields(micros(f, std), std); }
inline bool same(const F & a, const F & b) { return a.y == b.y && a.m == b.m && a.d == b.d && a.s == b.s && a.u == b.u; }
}
#endif
