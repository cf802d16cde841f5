// Harness server over the public interface of MeshingSmartTree.
#include "proto.h"
#include <fstream>
#include <sstream>
#include "MeshingSmartTree.h"
using namespace proto;

static std::string slurp(const char* f)
{
	std::ifstream s(f); std::stringstream b; b << s.rdbuf(); return b.str();
}

// Interprets a history.  ops: i64 stream, dat: double stream.  Output: i64 stream, double stream.
//  0 add        nd hasn na a1.. | x[nd] n[dim]?      1 rebuild balanced      2 clear
//  3 renumber   4 switch automatic balancing off     5 set integer attribute p k v
//  6 set double attribute p k | v                    7 link both ways p q    8 link one way p q
//  9 forget links
// 20 closest to stored point p | cap                21 closest to x | x cap
// 22 closest to x except k e1..ek | x cap           23 non-smooth (feature tolerance) | x tol thr cap
// 24 non-smooth (one normal) | x n thr cap          25 non-smooth (k normals) k | x n1..nk thr cap
// 26 non-smooth edge | x tol thr cap                27 in sphere cap0 | x r
// 28 dump      29 linked? p q   30 links of p       31 count
// 32 read point p nd        33 read attribute p k
struct Rd { std::vector<int64_t>& i; std::vector<double>& d; size_t pi, pd;
	Rd(std::vector<int64_t>& a, std::vector<double>& b) : i(a), d(b), pi(0), pd(0) {}
	int64_t gi() { return i.at(pi++); }
	double gd() { return d.at(pd++); }
	bool more() { return pi < i.size(); } };

static void history(MeshingSmartTree& t, size_t dim, Rd& r, std::vector<int64_t>& oi, std::vector<double>& od)
{
	std::vector<double> x(64), n(64);
	while (r.more())
	{
		int64_t op = r.gi();
		size_t idx = (size_t)-2; double h = 0;
		if (op == 0)
		{
			size_t nd = r.gi(), hasn = r.gi(), na = r.gi();
			std::vector<size_t> at(na + 1);
			at[0] = na + 1;
			for (size_t k = 0; k < na; k++) at[k + 1] = (size_t)r.gi();
			// exact-size heap blocks: a read past the end is visible to AddressSanitizer
			double* px = new double[nd]; double* pn = new double[dim];
			for (size_t k = 0; k < nd; k++) px[k] = r.gd();
			if (hasn) for (size_t k = 0; k < dim; k++) pn[k] = r.gd();
			t.add_tree_point(nd, px, hasn ? pn : 0, na ? &at[0] : 0);
			delete[] px; delete[] pn;
		}
		else if (op == 1) t.kd_tree_build_balanced();
		else if (op == 2) t.clear_memory();
		else if (op == 3) t.re_enumerate_points_for_better_memory_access();
		else if (op == 4) t.disable_auto_balance();
		else if (op == 5) { size_t p = r.gi(), k = r.gi(), v = r.gi(); t.set_tree_point_attrib(p, k, (size_t)v); }
		else if (op == 6) { size_t p = r.gi(), k = r.gi(); double v = r.gd(); t.set_tree_point_attrib(p, k, v); }
		else if (op == 7) { size_t p = r.gi(), q = r.gi(); oi.push_back(t.graph_connect_nodes(p, q) ? 1 : 0); }
		else if (op == 8) { size_t p = r.gi(), q = r.gi(); oi.push_back(t.graph_connect(p, q)); }
		else if (op == 9) t.reset_graph();
		else if (op >= 20 && op <= 26)
		{
			if (op == 20) { size_t p = r.gi(); h = r.gd(); t.get_closest_tree_point(p, idx, h); }
			else
			{
				std::vector<size_t> ex; size_t k = 0;
				if (op == 22) { k = r.gi(); ex.resize(k + 1); for (size_t j = 0; j < k; j++) ex[j] = r.gi(); }
				if (op == 25) k = r.gi();
				for (size_t j = 0; j < dim; j++) x[j] = r.gd();
				if (op == 21) { h = r.gd(); t.get_closest_tree_point(&x[0], idx, h); }
				if (op == 22) { h = r.gd(); t.get_closest_tree_point(&x[0], k, k ? &ex[0] : 0, idx, h); }
				if (op == 23 || op == 26)
				{
					double tol = r.gd(), thr = r.gd(); h = r.gd();
					if (op == 23) t.get_closest_non_smooth_tree_point(&x[0], tol, thr, idx, h);
					else t.get_closest_non_smooth_tree_edge_point(&x[0], tol, thr, idx, h);
				}
				if (op == 24)
				{
					for (size_t j = 0; j < dim; j++) n[j] = r.gd();
					double thr = r.gd(); h = r.gd();
					t.get_closest_non_smooth_tree_point(&x[0], &n[0], thr, idx, h);
				}
				if (op == 25)
				{
					std::vector<std::vector<double> > nn(k, std::vector<double>(dim));
					std::vector<double*> np(k + 1);
					for (size_t m = 0; m < k; m++) { for (size_t j = 0; j < dim; j++) nn[m][j] = r.gd(); np[m] = &nn[m][0]; }
					double thr = r.gd(); h = r.gd();
					t.get_closest_non_smooth_tree_point(&x[0], k, &np[0], thr, idx, h);
				}
			}
			oi.push_back((int64_t)idx); od.push_back(h);
		}
		else if (op == 27)
		{
			size_t cap = r.gi();
			for (size_t j = 0; j < dim; j++) x[j] = r.gd();
			double rad = r.gd();
			size_t num = 777; size_t* list = 0;
			if (cap) list = new size_t[cap];
			t.get_tree_points_in_sphere(&x[0], rad, num, list, cap);
			oi.push_back((int64_t)num);
			for (size_t k = 0; k < num; k++) oi.push_back((int64_t)list[k]);
			delete[] list;
		}
		else if (op == 28)
		{
			size_t nd = r.gi(), np = t.get_num_tree_points();
			oi.push_back((int64_t)np);
			for (size_t p = 0; p < np; p++)
			{
				t.get_tree_point(p, nd, &x[0]);
				for (size_t j = 0; j < nd; j++) od.push_back(x[j]);
				double* pn = t.get_tree_point_normal(p);
				for (size_t j = 0; j < dim; j++) od.push_back(pn[j]);
				size_t* a = t.get_tree_point_attrib(p);
				if (a == 0) oi.push_back(0);
				else { oi.push_back((int64_t)a[0]); for (size_t k = 1; k < a[0]; k++) oi.push_back((int64_t)a[k]); }
			}
		}
		else if (op == 29) { size_t p = r.gi(), q = r.gi(); oi.push_back(t.graph_connected(p, q) ? 1 : 0); }
		else if (op == 30)
		{
			size_t p = r.gi(); size_t* nb = 0;
			t.graph_get_neighbors(p, nb);
			if (nb == 0) oi.push_back(0);
			else { oi.push_back((int64_t)nb[1]); for (size_t k = 0; k < nb[1]; k++) oi.push_back((int64_t)nb[2 + k]); }
		}
		else if (op == 31) { oi.push_back((int64_t)t.get_num_tree_points()); oi.push_back((int64_t)t.get_num_dimensions()); }
		else if (op == 32)
		{
			size_t p = r.gi();
			t.get_tree_point(p, &x[0]);
			double* q = t.get_tree_point(p);
			for (size_t j = 0; j < dim; j++) { od.push_back(x[j]); od.push_back(q[j]); }
		}
		else if (op == 33)
		{
			size_t p = r.gi(), k = r.gi(), v = 12345;
			bool ok = t.get_tree_point_attrib(p, k, v);
			oi.push_back(ok ? 1 : 0); oi.push_back(ok ? (int64_t)v : 0);
		}
		else throw std::runtime_error("bad op");
	}
}
// args: dim, ctor (0: default, 1: by dimension, 2: from an array of points), ops, dat
static void h_history(Args& a, Out& o)
{
	size_t dim = a[0].i[0]; int64_t ctor = a[1].i[0];
	Rd r(a[2].i, a[3].d);
	std::vector<int64_t> oi; std::vector<double> od;
	if (ctor == 2)
	{
		size_t n = a[4].d.size() / dim;
		double** pts = new double*[n];
		for (size_t k = 0; k < n; k++) { pts[k] = new double[dim]; for (size_t j = 0; j < dim; j++) pts[k][j] = a[4].d[k * dim + j]; }
		{ MeshingSmartTree t(dim, n, pts); history(t, dim, r, oi, od); }
	}
	else if (ctor == 1) { MeshingSmartTree t(dim); history(t, dim, r, oi, od); }
	else { MeshingSmartTree t; history(t, dim, r, oi, od); }
	o.put(oi); o.put(od);
}
// save: dim nd ops dat -> text of the file
static void h_save(Args& a, Out& o)
{
	size_t dim = a[0].i[0], nd = a[1].i[0];
	MeshingSmartTree t(dim);
	Rd r(a[2].i, a[3].d);
	std::vector<int64_t> oi; std::vector<double> od;
	history(t, dim, r, oi, od);
	remove("t.csv");
	t.save_tree_csv("t.csv", nd);
	o.put(slurp("t.csv"));
	remove("t.csv");
}
// load: dim nd ops dat | texts of files, loaded one after the other | ops dat
static void h_load(Args& a, Out& o)
{
	size_t dim = a[0].i[0], nd = a[1].i[0];
	MeshingSmartTree t(dim);
	std::vector<int64_t> oi; std::vector<double> od;
	{ Rd r(a[2].i, a[3].d); history(t, dim, r, oi, od); }
	oi.clear(); od.clear();
	for (size_t k = 6; k < a.size(); k++)
	{
		{ std::ofstream f("t.csv"); f << a[k].s; }
		t.load_tree_csv("t.csv", nd);
		remove("t.csv");
	}
	Rd r(a[4].i, a[5].d);
	history(t, dim, r, oi, od);
	o.put(oi); o.put(od);
}
static double** rows(std::vector<double>& d, size_t dim, size_t& n)
{
	n = d.size() / dim;
	double** p = new double*[n ? n : 1];
	for (size_t k = 0; k < n; k++) { p[k] = new double[dim]; for (size_t j = 0; j < dim; j++) p[k][j] = d[k * dim + j]; }
	return p;
}
static void fill(MeshingSmartTree& t, size_t dim, std::vector<double>& d)
{
	size_t n = d.size() / dim;
	for (size_t k = 0; k < n; k++) t.add_tree_point(dim, &d[k * dim], 0, 0);
}
// spoke trimming: dim, points, involved, cell seed, origin, directions.., lengths..
static void h_trim(Args& a, Out& o)
{
	size_t dim = a[0].i[0];
	MeshingSmartTree t(dim);
	fill(t, dim, a[1].d);
	std::vector<size_t> inv(a[2].i.begin(), a[2].i.end()); inv.push_back(0);
	size_t ns = a[6].d.size();
	std::vector<int64_t> nb; std::vector<double> len;
	for (size_t s = 0; s < ns; s++)
	{
		double L = a[6].d[s]; size_t neigh = t.get_num_tree_points();
		t.trim_spoke(&a[3].d[0], a[2].i.size(), &inv[0], &a[4].d[0], &a[5].d[s * dim], L, neigh);
		nb.push_back((int64_t)neigh); len.push_back(L);
	}
	o.put(nb); o.put(len);
}
// 3d cell of one stored point
static void h_cell(Args& a, Out& o)
{
	MeshingSmartTree t(3);
	fill(t, 3, a[0].d);
	size_t nn = 0; size_t* neigh = 0; double vol = 0; size_t* nc = 0; double*** fc = 0; double* area = 0;
	t.get_3d_Voronoi_cell((size_t)a[1].i[0], nn, neigh, vol, nc, fc, area);
	std::vector<int64_t> on, onc; std::vector<double> oa, oc, ov(1, vol);
	for (size_t k = 0; k < nn; k++)
	{
		on.push_back((int64_t)neigh[k]); onc.push_back((int64_t)nc[k]); oa.push_back(area[k]);
		for (size_t c = 0; c < nc[k]; c++) for (int j = 0; j < 3; j++) oc.push_back(fc[k][c][j]);
	}
	o.put(on); o.put(onc); o.put(ov); o.put(oa); o.put(oc);
}
static void h_vertex(Args& a, Out& o)
{
	size_t dim = a[0].i[0];
	MeshingSmartTree t(dim);
	fill(t, dim, a[1].d);
	std::vector<size_t> s(a[2].i.begin(), a[2].i.end());
	std::vector<double> v(dim, 0.0);
	bool ok = t.get_Voronoi_vertex(s.size(), &s[0], &v[0]);
	std::vector<int64_t> r(1, ok ? 1 : 0);
	o.put(r); o.put(v);
}
// approximate neighbours by random spokes
static void h_neigh(Args& a, Out& o)
{
	size_t dim = a[0].i[0];
	MeshingSmartTree t(dim);
	fill(t, dim, a[1].d);
	size_t num = 0; size_t *nb = 0, *hits = 0, *lev = 0;
	t.get_Voronoi_neighbors((size_t)a[3].i[0], (size_t)a[3].i[1], dim, &a[2].d[0], num, nb, hits, lev);
	std::vector<int64_t> v, h, l;
	for (size_t k = 0; k < num; k++) { v.push_back(nb[k]); h.push_back(hits[k]); l.push_back(lev[k]); }
	o.put(v); o.put(h); o.put(l);
}
// spokes with their ends: dim, points, x, (spokes, layers, thread or -1)
static void h_spokes(Args& a, Out& o)
{
	size_t dim = a[0].i[0];
	MeshingSmartTree t(dim);
	fill(t, dim, a[1].d);
	size_t ns = a[3].i[0], nl = a[3].i[1]; int64_t th = a[3].i[2];
	double** end = new double*[ns]; size_t* en = new size_t[ns];
	size_t num = 0; size_t *nb = 0, *hits = 0, *lev = 0;
	if (th >= 0)
	{
		t.init_random_samplers(size_t(th) + 1);
		t.get_Voronoi_neighbors(size_t(th), ns, nl, dim, &a[2].d[0], end, en, num, nb, hits, lev);
	}
	else t.get_Voronoi_neighbors(ns, nl, dim, &a[2].d[0], end, en, num, nb, hits, lev);
	std::vector<int64_t> v, h, l, e; std::vector<double> x;
	for (size_t k = 0; k < num; k++) { v.push_back(nb[k]); h.push_back(hits[k]); l.push_back(lev[k]); }
	for (size_t k = 0; k < ns; k++)
	{
		e.push_back((int64_t)en[k]);
		for (size_t j = 0; j < dim; j++) x.push_back(end[k][j]);
		delete[] end[k];
	}
	delete[] end; delete[] en; delete[] nb; delete[] hits; delete[] lev;
	o.put(v); o.put(h); o.put(l); o.put(e); o.put(x);
}
// a wanted number of neighbours
static void h_wanted(Args& a, Out& o)
{
	size_t dim = a[0].i[0];
	MeshingSmartTree t(dim);
	fill(t, dim, a[1].d);
	size_t num = 0; size_t* nb = 0;
	t.get_Voronoi_neighbors((size_t)a[3].i[0], dim, &a[2].d[0], num, nb);
	std::vector<int64_t> v;
	for (size_t k = 0; k < num; k++) v.push_back(nb[k]);
	delete[] nb;
	o.put(v);
}
int main()
{
	Table t;
	t["history"] = h_history; t["save"] = h_save; t["load"] = h_load; t["trim"] = h_trim;
	t["cell"] = h_cell; t["vertex"] = h_vertex; t["neigh"] = h_neigh;
	t["spokes"] = h_spokes; t["wanted"] = h_wanted;
	return serve(t);
}
