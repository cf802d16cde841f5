// Harness server over the public interface of MeshingVoronoiMesher.
#include "proto.h"
#include <fstream>
#include <sstream>
#include "MeshingVoronoiMesher.h"
using namespace proto;

// exact-size heap copies: a write or read past the end is visible to AddressSanitizer
template <class T, class S> static T* heap(const std::vector<S>& v)
{
	T* p = new T[v.size()];
	for (size_t k = 0; k < v.size(); k++) p[k] = (T)v[k];
	return p;
}
static std::string slurp(const char* f)
{
	std::ifstream s(f); std::stringstream b; b << s.rdbuf(); return b.str();
}

// voronoi: i[threads n] d[seeds 3n] i[regions] d[sizing] -> d[vertices] i[faces, as stored, concatenated]
static void h_voronoi(Args& a, Out& o)
{
	int nt = (int)a[0].i.at(0); size_t n = (size_t)a[0].i.at(1);
	double* s = heap<double>(a[1].d); size_t* reg = heap<size_t>(a[2].i); double* sz = heap<double>(a[3].d);
	MeshingVoronoiMesher m;
	size_t nv = 0, nf = 0; double* v = 0; size_t** f = 0;
	m.generate_3d_voronoi_mesh(nt, n, s, reg, sz, nv, v, nf, f);
	std::vector<double> ov(v, v + 3 * nv);
	std::vector<int64_t> of;
	for (size_t k = 0; k < nf; k++) for (size_t j = 0; j < f[k][0] + 3; j++) of.push_back((int64_t)f[k][j]);
	std::vector<int64_t> same(1, 1);
	for (size_t k = 0; k < 3 * n; k++) if (s[k] != a[1].d[k]) same[0] = 0;
	o.put(ov); o.put(of); o.put(same);
	for (size_t k = 0; k < nf; k++) delete[] f[k];
	delete[] f; delete[] v; delete[] s; delete[] reg; delete[] sz;
}

// vcg: the mesh is given; writes the grid file and returns its text
//  d[seeds] i[regions] d[vertices] i[faces flat] i[cell_num_faces] i[cell_faces flat]
static void h_vcg(Args& a, Out& o)
{
	size_t n = a[1].i.size();
	double* s = heap<double>(a[0].d); size_t* reg = heap<size_t>(a[1].i); double* v = heap<double>(a[2].d);
	std::vector<size_t*> f;
	for (size_t p = 0; p < a[3].i.size();)
	{
		size_t k = (size_t)a[3].i[p] + 3;
		size_t* q = new size_t[k];
		for (size_t j = 0; j < k; j++) q[j] = (size_t)a[3].i[p + j];
		f.push_back(q); p += k;
	}
	size_t* cn = heap<size_t>(a[4].i);
	size_t** cf = new size_t*[n]; size_t p = 0;
	for (size_t k = 0; k < n; k++)
	{
		cf[k] = new size_t[cn[k]];
		for (size_t j = 0; j < cn[k]; j++) cf[k][j] = (size_t)a[5].i.at(p++);
	}
	MeshingVoronoiMesher m;
	remove("t.vcg");
	m.save_vcg_file_pflotran("t.vcg", n, s, reg, a[2].d.size() / 3, v, f.size(), f.empty() ? 0 : &f[0], cn, cf);
	o.put(slurp("t.vcg"));
	remove("t.vcg");
}

// interior / imposed: i[threads] d[Lip rmax] d[seeds 3n] d[sizing] i[regions]
//   d[surf 4k] d[edge 4k] d[corner 4k] d[sizing points 4k]  (x y z r)  [d imposed 4k]
struct Sph
{
	size_t n; double* x; double* r;
	Sph(const std::vector<double>& v)
	{
		n = v.size() / 4; x = 0; r = 0;
		if (!n) return;
		x = new double[3 * n]; r = new double[n];
		for (size_t i = 0; i < n; i++) { for (size_t j = 0; j < 3; j++) x[3 * i + j] = v[4 * i + j]; r[i] = v[4 * i + 3]; }
	}
	~Sph() { delete[] x; delete[] r; }
};
static void interior(Args& a, Out& o, bool gen, bool imp)
{
	int nt = (int)a[0].i.at(0); double lip = a[1].d.at(0), rmax = a[1].d.at(1);
	size_t n = a[3].d.size();
	double* s = heap<double>(a[2].d); double* sz = heap<double>(a[3].d); size_t* reg = heap<size_t>(a[4].i);
	Sph su(a[5].d), ed(a[6].d), co(a[7].d), sp(a[8].d);
	MeshingVoronoiMesher m;
	std::vector<int64_t> cnt;
	if (imp)
	{
		double* q = heap<double>(a[9].d);
		m.impose_interior_seeds(n, s, sz, reg, su.n, su.x, su.r, ed.n, ed.x, ed.r, co.n, co.x, co.r, sp.n, sp.x, sp.r,
		                        a[9].d.size() / 4, q, nt, lip, rmax);
		delete[] q;
	}
	cnt.push_back((int64_t)n);
	if (gen)
		m.generate_interior_seeds(n, s, sz, reg, su.n, su.x, su.r, ed.n, ed.x, ed.r, co.n, co.x, co.r, sp.n, sp.x, sp.r, nt, lip, rmax);
	cnt.push_back((int64_t)n);
	o.put(cnt);
	o.put(std::vector<double>(s, s + 3 * n));
	o.put(std::vector<double>(sz, sz + n));
	o.put(std::vector<size_t>(reg, reg + n));
	delete[] s; delete[] sz; delete[] reg;
}
static void h_interior(Args& a, Out& o) { interior(a, o, true, false); }
static void h_imposed(Args& a, Out& o) { interior(a, o, false, true); }
static void h_both(Args& a, Out& o) { interior(a, o, true, true); }

// spheres: i[dim layout hasid] d[x dim*n] d[r n] i[ids] -> text, i[count] d[loaded]
static void h_spheres(Args& a, Out& o)
{
	size_t dim = (size_t)a[0].i.at(0); bool split = a[0].i.at(1) != 0, hasid = a[0].i.at(2) != 0;
	size_t n = a[2].d.size();
	MeshingVoronoiMesher m;
	double* x; double* r = 0; size_t* id = hasid ? heap<size_t>(a[3].i) : 0;
	if (split) { x = heap<double>(a[1].d); r = heap<double>(a[2].d); }
	else
	{
		x = new double[(dim + 1) * n];
		for (size_t i = 0; i < n; i++) { for (size_t j = 0; j < dim; j++) x[i * (dim + 1) + j] = a[1].d[i * dim + j]; x[i * (dim + 1) + dim] = a[2].d[i]; }
	}
	remove("s.csv");
	m.save_spheres_csv("s.csv", dim, n, x, r, id);
	o.put(slurp("s.csv"));
	if (a.size() > 4) { std::ofstream f("s.csv", std::ios::app); f << a[4].s; }
	size_t k = 0; double* y = 0;
	m.load_spheres_csv("s.csv", dim, k, y);
	std::vector<int64_t> c(1, (int64_t)k);
	o.put(c); o.put(std::vector<double>(y, y + k * (dim + 1)));
	remove("s.csv");
	delete[] x; delete[] r; delete[] id; delete[] y;
}

// ply: d[vertices] i[faces flat] -> text
static void h_ply(Args& a, Out& o)
{
	double* v = heap<double>(a[0].d);
	std::vector<size_t*> f;
	for (size_t p = 0; p < a[1].i.size();)
	{
		size_t k = (size_t)a[1].i[p] + 3;
		size_t* q = new size_t[k];
		for (size_t j = 0; j < k; j++) q[j] = (size_t)a[1].i[p + j];
		f.push_back(q); p += k;
	}
	MeshingVoronoiMesher m;
	m.save_Voronoi_tessellation("t.ply", a[0].d.size() / 3, v, f.size(), f.empty() ? 0 : &f[0]);
	o.put(slurp("t.ply"));
	remove("t.ply");
}

int main()
{
	Table t;
	t["voronoi"] = h_voronoi; t["vcg"] = h_vcg; t["interior"] = h_interior; t["imposed"] = h_imposed;
	t["both"] = h_both; t["spheres"] = h_spheres; t["ply"] = h_ply;
	return serve(t);
}
