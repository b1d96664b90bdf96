// C28: the factorial example, with symbolic arguments.
//@run prop=C28 name=factorial kind=seq covers=zero,one,many,wrapped define=ARGMAX=24,ORDERMAX=5 tdefine=ARGMAX=70,ORDERMAX=9 ttime=1200
#include "common.h"
#include <iostream>
#include <vector>
#include <array>
#include <map>
#include <string>
#include <functional>
#include <algorithm>
#include <numeric>
#include <cmath>
#include <sstream>
#include <iomanip>

// stands in for size_t in the example: the argument read from the list is replaced by any value
static int g_seen = 0, g_which = 0, g_last = 0;
struct SymArg
{
	unsigned long v = 0;
	SymArg() = default;
	SymArg(const SymArg &) = default;
	SymArg &operator=(const SymArg &) = default;
	SymArg(int &&x) : v(static_cast<unsigned long>(x)) {}
	SymArg(unsigned &&x) : v(x) {}
	SymArg(long &&x) : v(static_cast<unsigned long>(x)) {}
	SymArg(unsigned long x) : v(x) {}
	SymArg(const int &x) : v(static_cast<unsigned long>(x))
	{
		// every random order in the chosen computation for small arguments, otherwise always the first or always the last
		sym_config("order", 1 + g_last);
		if (g_seen++ == g_which)
		{
			v = sym_concretize(sym_range("n", 0, ARGMAX));
			if (v <= ORDERMAX) sym_config("order", 0);
		}
	}
	operator unsigned long() const { return v; }
	SymArg &operator*=(unsigned long o) { v *= o; return *this; }
	SymArg &operator+=(unsigned long o) { v += o; return *this; }
	SymArg &operator-=(unsigned long o) { v -= o; return *this; }
	SymArg &operator/=(unsigned long o) { v /= o; return *this; }
	SymArg &operator--() { --v; return *this; }
	SymArg &operator++() { ++v; return *this; }
	SymArg operator--(int) { SymArg o = *this; --v; return o; }
	SymArg operator++(int) { SymArg o = *this; ++v; return o; }
};
namespace std
{
static ostream &symcout = sym_ostream();
}
#define size_t SymArg
#define cout symcout
#define main factorial_main
#include "Factorial/main.cpp"
#undef main
#undef cout
#undef size_t

int main()
{
	g_last = int(sym_choice("last", 2));
	g_which = int(sym_choice("which", 3)); // the first, second or third computation
	CHECKP(28, factorial_main(0, nullptr) == 0, "the example ends successfully");
	unsigned long num[64];
	int n = 0;
	for (std::size_t i = 0; i < sym_out_count(); i++)
		if (sym_out_isnum(i) && n < 64) num[n++] = sym_out_num(i);
	CHECKP(28, n >= 2 && n % 2 == 0, "every result is printed with its argument");
	for (int i = 0; i + 1 < n; i += 2)
	{
		unsigned long a = sym_concretize(num[i]), f = 1;
		for (unsigned long k = 2; k <= a; k++) f *= k;
		CHECKP(28, num[i + 1] == f, "the printed result is the factorial of the argument");
		if (i == 2 * g_which)
		{
			if (a == 0) sym_cover("zero");
			if (a == 1) sym_cover("one");
			if (a > 1) sym_cover("many");
			if (a > 20) sym_cover("wrapped");
		}
	}
	sym_cover("end");
	return 0;
}
