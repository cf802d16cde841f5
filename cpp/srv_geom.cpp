// Harness server over the public interfaces of MeshingGeometricalMethods, MeshingSpheresMethods
// (kernels), MeshingLinearSolver, MeshingRandomSampler and MeshingMemoryHandler.
#include "proto.h"
#include "MeshingGeometricalMethods.h"
#include "MeshingSpheresMethods.h"
#include "MeshingLinearSolver.h"
#include "MeshingRandomSampler.h"
#include "MeshingMemoryHandler.h"
using namespace proto;

// exact-size heap blocks: an access past the end is visible to AddressSanitizer
struct Buf
{
	double* p; size_t n;
	Buf(size_t k) : p(new double[k]), n(k) { for (size_t i = 0; i < k; i++) p[i] = -7.25; }
	~Buf() { delete[] p; }
	operator double*() { return p; }
private: Buf(const Buf&);
};
struct Rd
{
	const std::vector<double>& d; size_t k;
	Rd(const std::vector<double>& v) : d(v), k(0) {}
	double g() { return d.at(k++); }
	void fill(double* p, size_t n) { for (size_t i = 0; i < n; i++) p[i] = g(); }
};
static void app(std::vector<double>& o, const double* p, size_t n) { o.insert(o.end(), p, p + n); }

// geom: i[op dim n ...]* d[...] -> d[...]
static void h_geom(Args& a, Out& out)
{
	MeshingGeometricalMethods g; MeshingSpheresMethods s;
	Rd r(a[1].d); std::vector<double> o;
	for (size_t q = 0; q + 2 < a[0].i.size(); q += 3)
	{
		int op = (int)a[0].i[q]; size_t D = (size_t)a[0].i[q + 1], N = (size_t)a[0].i[q + 2];
		if (op == 0) { Buf x(D), y(D); r.fill(x, D); r.fill(y, D); o.push_back(g.distance(D, x, y)); }
		else if (op == 1) { Buf x(D), y(D); r.fill(x, D); r.fill(y, D); o.push_back(g.dot_product(D, x, y)); }
		else if (op == 2) { Buf x(D); r.fill(x, D); o.push_back(g.normalize_vector(D, x)); app(o, x, D); }
		else if (op == 3) { Buf x(D), y(D), z(D); r.fill(x, D); r.fill(y, D); r.fill(z, D); o.push_back(g.cos_angle(D, x, y, z)); }
		else if (op == 4) { double x = r.g(), y = r.g(); o.push_back(g.get_point_angle(x, y)); }
		else if (op == 5)
		{
			// normal component: N basis vectors
			double** b = new double*[N];
			for (size_t i = 0; i < N; i++) { b[i] = new double[D]; r.fill(b[i], D); }
			Buf v(D); r.fill(v, D); double nm = -1;
			o.push_back(g.get_normal_component(D, N, b, v, nm)); o.push_back(nm); app(o, v, D);
			for (size_t i = 0; i < N; i++) delete[] b[i];
			delete[] b;
		}
		else if (op == 6) { Buf x(D + 1), y(D + 1); r.fill(x, D + 1); r.fill(y, D + 1); o.push_back(g.overlapping_spheres(D, x, y)); }
		else if (op >= 7 && op <= 9)
		{
			double* c[3]; for (int i = 0; i < 3; i++) { c[i] = new double[3]; r.fill(c[i], 3); }
			double* c0[3] = { c[0], c[1], c[2] }; std::vector<double> was; for (int i = 0; i < 3; i++) app(was, c[i], 3);
			if (op == 7) o.push_back(g.get_3d_triangle_area(c));
			else if (op == 8) { Buf n(3); o.push_back(g.get_3d_triangle_normal(c, n)); app(o, n, 3); }
			else { Buf p(3), x(3); r.fill(p, 3); double h = -1; g.project_to_3d_triangle(p, c, x, h); app(o, x, 3); o.push_back(h); }
			bool same = true;
			for (int i = 0; i < 3; i++) { if (c[i] != c0[i]) same = false; for (int j = 0; j < 3; j++) if (c0[i][j] != was[3 * i + j]) same = false; }
			o.push_back(same);
			for (int i = 0; i < 3; i++) delete[] c0[i];
		}
		else if (op == 10 || op == 11)
		{
			Buf p(3), x(3), y(3), z(3); r.fill(p, 3); r.fill(x, 3); r.fill(y, 3); double h = -1;
			if (op == 10) g.project_to_3d_line_segment(p, x, y, z, h); else g.project_to_3d_line(p, x, y, z, h);
			app(o, z, 3); o.push_back(h);
		}
		else if (op == 12)
		{
			Buf x(D), y(D), z(D); r.fill(x, D); double rx = r.g(); r.fill(y, D); double ry = r.g();
			g.get_power_vertex(D, x, rx, y, ry, z); app(o, z, D);
		}
		else if (op == 13)
		{
			Buf x(D + 1), y(D + 1), z(D); r.fill(x, D + 1); r.fill(y, D + 1);
			o.push_back(s.get_power_vertex(D, x, y, z)); app(o, z, D);
		}
		else if (op == 14 || op == 15)
		{
			double** b = new double*[N]; double* rad = new double[N];
			for (size_t i = 0; i < N; i++) { b[i] = new double[D + 1]; r.fill(b[i], D + 1); rad[i] = b[i][D]; }
			Buf z(D);
			o.push_back(op == 14 ? g.get_power_vertex(D, N, b, rad, z) : s.get_power_vertex(D, N, b, z)); app(o, z, D);
			for (size_t i = 0; i < N; i++) delete[] b[i];
			delete[] b; delete[] rad;
		}
		else if (op == 16)
		{
			double** b = new double*[N]; bool* f = new bool[N];
			for (size_t i = 0; i < N; i++) { b[i] = new double[4]; r.fill(b[i], 4); f[i] = r.g() != 0; }
			size_t k = 0; double rad = -1;
			s.resolve_sliver(N, b, f, k, rad); o.push_back((double)k); o.push_back(rad);
			for (size_t i = 0; i < N; i++) delete[] b[i];
			delete[] b; delete[] f;
		}
		else if (op == 17)
		{
			Buf p(3), x(4); r.fill(p, 3); r.fill(x, 4); double al = r.g(); o.push_back(s.point_covered(p, (double*)x, al));
		}
		else throw std::runtime_error("op");
	}
	out.put(o);
}

static double** mat(size_t n, size_t m) { double** A = new double*[n]; for (size_t i = 0; i < n; i++) { A[i] = new double[m]; for (size_t j = 0; j < m; j++) A[i][j] = 0.5; } return A; }
static void kill(double** A, size_t n) { for (size_t i = 0; i < n; i++) delete[] A[i]; delete[] A; }

// qr: i[n m] d[A] d[b] -> i[status] d[Q] d[R] d[x] d[A after] d[b after]
static void h_qr(Args& a, Out& o)
{
	size_t n = (size_t)a[0].i[0], m = (size_t)a[0].i[1];
	double** A = mat(n, m); double** Q = mat(n, n); double** R = mat(n, m);
	Buf b(n), x(m);
	for (size_t i = 0; i < n; i++) { b[i] = a[2].d.at(i); for (size_t j = 0; j < m; j++) A[i][j] = a[1].d.at(i * m + j); }
	MeshingLinearSolver s;
	std::vector<int64_t> st(1, s.householder(n, m, A, Q, R));
	if (m <= n) s.LS_QR_Solver(n, m, A, b, x);
	std::vector<double> q, r, aa;
	for (size_t i = 0; i < n; i++) { app(q, Q[i], n); app(r, R[i], m); app(aa, A[i], m); }
	o.put(st); o.put(q); o.put(r); o.put(std::vector<double>(x.p, x.p + m)); o.put(aa); o.put(std::vector<double>(b.p, b.p + n));
	kill(A, n); kill(Q, n); kill(R, n);
}

struct Sparse
{
	size_t n; size_t** J; double** V;
	static void row(const double* v, size_t m, size_t*& j, double*& x, bool tight)
	{
		size_t nnz = 0; for (size_t k = 0; k < m; k++) if (v[k] != 0) nnz++;
		size_t cap = tight ? (nnz ? nnz : 1) : nnz + 10;
		j = new size_t[cap + 2]; x = new double[cap]; j[0] = cap; j[1] = nnz; nnz = 0;
		for (size_t k = 0; k < m; k++) if (v[k] != 0) { j[2 + nnz] = k; x[nnz] = v[k]; nnz++; }
	}
	void set(size_t N, const std::vector<double>& A, bool tight)
	{
		n = N; J = new size_t*[n]; V = new double*[n];
		for (size_t i = 0; i < n; i++) row(&A[i * n], n, J[i], V[i], tight);
	}
	std::vector<double> dense() const
	{
		std::vector<double> A(n * n, 0.0);
		for (size_t i = 0; i < n; i++)
		{
			if (!J[i]) throw std::runtime_error("missing row");
			for (size_t k = 0; k < J[i][1]; k++)
			{
				size_t c = J[i][2 + k];
				if (c >= n) throw std::runtime_error("column index out of range");
				if (k && J[i][1 + k] >= c) throw std::runtime_error("columns not sorted");
				if (J[i][1] > J[i][0]) throw std::runtime_error("more entries than capacity");
				A[i * n + c] = V[i][k];
			}
		}
		return A;
	}
	void free() { for (size_t i = 0; i < n; i++) { delete[] J[i]; delete[] V[i]; } delete[] J; delete[] V; }
};

// chol: i[n tight k op1 arg1 op2 arg2..] d[A] d[payload] d[b] -> i[ok of every step] d[L+L^T dense] d[x] i[n]
//  ops: 0 rank one update (payload n), 1 remove row arg, 2 add row (payload n+1)
static void h_chol(Args& a, Out& o)
{
	size_t n = (size_t)a[0].i[0]; bool tight = a[0].i[1] != 0; size_t k = (size_t)a[0].i[2];
	Sparse S; S.set(n, a[1].d, tight);
	MeshingLinearSolver s;
	std::vector<int64_t> ok; Rd r(a[2].d);
	ok.push_back(s.Cholesky_factorization(S.n, S.J, S.V));
	if (ok[0]) for (size_t q = 0; q < k; q++)
	{
		int op = (int)a[0].i.at(3 + 2 * q); size_t arg = (size_t)a[0].i.at(4 + 2 * q);
		if (op == 0)
		{
			std::vector<double> x(S.n); r.fill(&x[0], S.n); size_t* xj; double* xv;
			Sparse::row(&x[0], S.n, xj, xv, tight);
			s.Cholesky_factorization_rank_one_update(S.n, S.J, S.V, xj, xv); ok.push_back(1);
			delete[] xj; delete[] xv;
		}
		else if (op == 1) { s.Cholesky_factorization_remove_row(S.n, S.J, S.V, arg); ok.push_back(1); }
		else
		{
			std::vector<double> x(S.n + 1); r.fill(&x[0], S.n + 1); size_t* xj; double* xv;
			Sparse::row(&x[0], S.n + 1, xj, xv, tight);
			ok.push_back(s.Cholesky_factorization_add_row(S.n, S.J, S.V, xj, xv));
			delete[] xj; delete[] xv;
		}
	}
	o.put(ok);
	if (ok[0])
	{
		o.put(S.dense());
		Buf b(S.n), x(S.n); for (size_t i = 0; i < S.n; i++) b[i] = a[3].d.at(i);
		s.Cholesky_Solver(S.n, S.J, S.V, b, x);
		o.put(std::vector<double>(x.p, x.p + S.n));
	}
	else { o.put(std::vector<double>()); o.put(std::vector<double>()); }
	o.put(std::vector<int64_t>(1, (int64_t)S.n));
	S.free();
}

// rng: i[kind seed burn n dim nc] d[data] -> d[samples]
//  kind 0 uniform 1 box 2 sphere 3 simplex 4 cdf ; seed<0: constructor with thread id -1-seed ; seed==2^40: default constructor
static void h_rng(Args& a, Out& o)
{
	std::vector<double> out; size_t q = 0;
	MeshingRandomSampler* s = 0; int64_t cur = 0; Rd r(a[1].d);
	for (; q + 5 < a[0].i.size(); q += 6)
	{
		int64_t kind = a[0].i[q], seed = a[0].i[q + 1]; size_t burn = (size_t)a[0].i[q + 2], n = (size_t)a[0].i[q + 3], D = (size_t)a[0].i[q + 4], C = (size_t)a[0].i[q + 5];
		if (seed == ((int64_t)1 << 40)) { delete s; s = new MeshingRandomSampler(); }
		else if (seed < 0) { delete s; s = new MeshingRandomSampler((size_t)(-1 - seed)); }
		else if (seed != ((int64_t)1 << 41)) { if (!s) s = new MeshingRandomSampler((size_t)0); s->initiate_random_number_generator((unsigned long)seed); }
		for (size_t k = 0; k < burn; k++) s->generate_uniform_random_number();
		if (kind == 0) for (size_t k = 0; k < n; k++) out.push_back(s->generate_uniform_random_number());
		if (kind == 1) { Buf lo(D), hi(D), x(D); r.fill(lo, D); r.fill(hi, D); for (size_t k = 0; k < n; k++) { s->sample_uniformly_from_box(D, lo, hi, x); app(out, x, D); } }
		if (kind == 2) { Buf x(D); for (size_t k = 0; k < n; k++) { s->sample_uniformly_from_unit_sphere(x, D); app(out, x, D); } }
		if (kind == 3)
		{
			double** c = mat(C, D); for (size_t i = 0; i < C; i++) r.fill(c[i], D);
			Buf x(D); for (size_t k = 0; k < n; k++) { s->sample_uniformly_from_simplex(x, D, C, c); app(out, x, D); }
			kill(c, C);
		}
		if (kind == 4) { Buf c(C); r.fill(c, C); for (size_t k = 0; k < n; k++) out.push_back((double)s->sample_uniformly_from_discrete_cdf(C, c)); }
	}
	delete s; (void)cur;
	o.put(out);
}

template <class T> static T* ex(const std::vector<int64_t>& v) { T* p = new T[v.size()]; for (size_t i = 0; i < v.size(); i++) p[i] = (T)v[i]; return p; }

// sort: i[kind left right] i|d[keys] i[companions] -> keys, companions     kind 0 size_t, 1 double+companion, 2 size_t+companion
static void h_sort(Args& a, Out& o)
{
	MeshingMemoryHandler m; int kind = (int)a[0].i[0]; size_t l = (size_t)a[0].i[1], r = (size_t)a[0].i[2];
	size_t* I = ex<size_t>(a[2].i); size_t n = a[2].i.size();
	if (kind == 1)
	{
		Buf x(a[1].d.size()); for (size_t i = 0; i < x.n; i++) x[i] = a[1].d[i];
		m.quicksort(x.p, I, l, r); o.put(std::vector<double>(x.p, x.p + x.n));
	}
	else
	{
		size_t* x = ex<size_t>(a[1].i); size_t k = a[1].i.size();
		if (kind == 0) m.quicksort(x, l, r); else m.quicksort(x, I, l, r);
		o.put(std::vector<size_t>(x, x + k)); delete[] x;
	}
	o.put(std::vector<size_t>(I, I + n)); delete[] I;
}

// grow: i[kind cap0] i|d[entries] -> the stored entries, i[count capacity]
static void h_grow(Args& a, Out& o)
{
	MeshingMemoryHandler m; int kind = (int)a[0].i[0]; size_t cap = (size_t)a[0].i[1], n = 0;
	std::vector<int64_t> c;
	if (kind == 1)
	{
		double* I = new double[cap];
		for (size_t i = 0; i < a[1].d.size(); i++) m.add_entry(a[1].d[i], n, I, cap);
		o.put(std::vector<double>(I, I + n)); I[cap - 1] = 1; delete[] I;
	}
	else if (kind == 0)
	{
		size_t* I = new size_t[cap];
		for (size_t i = 0; i < a[1].i.size(); i++) m.add_entry((size_t)a[1].i[i], n, I, cap);
		o.put(std::vector<size_t>(I, I + n)); I[cap - 1] = 1; delete[] I;
	}
	else
	{
		std::vector<int64_t> got;
		if (kind == 2) { double** I = new double*[cap]; for (size_t i = 0; i < a[1].i.size(); i++) m.add_entry((double*)a[1].i[i], n, I, cap); for (size_t i = 0; i < n; i++) got.push_back((int64_t)I[i]); I[cap - 1] = 0; delete[] I; }
		if (kind == 3) { size_t** I = new size_t*[cap]; for (size_t i = 0; i < a[1].i.size(); i++) m.add_entry((size_t*)a[1].i[i], n, I, cap); for (size_t i = 0; i < n; i++) got.push_back((int64_t)I[i]); I[cap - 1] = 0; delete[] I; }
		if (kind == 4) { bool** I = new bool*[cap]; for (size_t i = 0; i < a[1].i.size(); i++) m.add_entry((bool*)a[1].i[i], n, I, cap); for (size_t i = 0; i < n; i++) got.push_back((int64_t)I[i]); I[cap - 1] = 0; delete[] I; }
		o.put(got);
	}
	c.push_back((int64_t)n); c.push_back((int64_t)cap); o.put(c);
}

// parse: s* -> d[doubles] i[integers]
static void h_parse(Args& a, Out& o)
{
	MeshingMemoryHandler m; std::vector<double> d; std::vector<int64_t> i;
	for (size_t k = 0; k < a.size(); k++) { d.push_back(m.string_to_double(a[k].s)); i.push_back((int64_t)m.string_to_size_t(a[k].s)); }
	o.put(d); o.put(i);
}

int main()
{
	Table t;
	t["geom"] = h_geom; t["qr"] = h_qr; t["chol"] = h_chol; t["rng"] = h_rng; t["sort"] = h_sort; t["grow"] = h_grow; t["parse"] = h_parse;
	return serve(t);
}
