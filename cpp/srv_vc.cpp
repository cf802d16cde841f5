// Harness server over private parts of MeshingVoroCrust (optional: cases that need it are skipped
// when a changed tree no longer has these members).
#include "proto.h"
#include <fstream>
#include <sstream>
#include <iostream>
#include <iomanip>
#include <map>
#include <set>
#include <list>
#include <stack>
#include <memory>
#include <algorithm>
#include <iterator>
#include <limits>
#include <cmath>
#include <omp.h>
#define private public
#define protected public
#include "MeshingVoroCrust.h"
#undef private
#undef protected
using namespace proto;

static std::string slurp(const char* f)
{
	std::ifstream s(f); std::stringstream b; b << s.rdbuf(); return b.str();
}
template <class T, class S> static T* heap(const std::vector<S>& v)
{
	T* p = new T[v.size()];
	for (size_t k = 0; k < v.size(); k++) p[k] = (T)v[k];
	return p;
}
// explicit: i[threads nsurf] d[seeds] i[regions] d[sizing] -> text of mesh.vcg
static void h_explicit(Args& a, Out& o)
{
	MeshingVoroCrust vc("none");
	remove("mesh.vcg");
	vc.generate_explicit_mesh((int)a[0].i.at(0), a[2].i.size(), heap<double>(a[1].d), heap<size_t>(a[2].i), heap<double>(a[3].d),
	                          (size_t)a[0].i.at(1), true, false);
	o.put(slurp("mesh.vcg"));
	remove("mesh.vcg");
}
// seeds: s[text of seeds.csv] -> d[x] d[size] i[region]
static void h_seeds(Args& a, Out& o)
{
	MeshingVoroCrust vc("none");
	{ std::ofstream f("q.csv"); f << a[0].s; }
	size_t n = 0; double* s = 0; size_t* g = 0; double* z = 0;
	vc.read_seeds_csv("q.csv", n, s, g, z);
	remove("q.csv");
	o.put(std::vector<double>(s, s + 3 * n)); o.put(std::vector<double>(z, z + n)); o.put(std::vector<size_t>(g, g + n));
	delete[] s; delete[] g; delete[] z;
}

int main()
{
	Table t;
	t["explicit"] = h_explicit; t["seeds"] = h_seeds;
	return serve(t);
}
