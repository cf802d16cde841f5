// Harness server over MeshingPolyMesh: OBJ files, welding, incidences, orientation.
#include "proto.h"
#include <fstream>
#include <sstream>
#include "MeshingPolyMesh.h"
using namespace proto;

struct Soup
{
	size_t np, nf; double** p; size_t** f;
	Soup() : np(0), nf(0), p(0), f(0) {}
	Soup(const std::vector<double>& v, const std::vector<int64_t>& t)
	{
		np = v.size() / 3; nf = t.size() / 3;
		p = new double*[np]; f = new size_t*[nf];
		for (size_t k = 0; k < np; k++) { p[k] = new double[3]; for (int i = 0; i < 3; i++) p[k][i] = v[3 * k + i]; }
		for (size_t k = 0; k < nf; k++) { f[k] = new size_t[4]; f[k][0] = 3; for (int i = 0; i < 3; i++) f[k][1 + i] = (size_t)t[3 * k + i]; }
	}
	void put(Out& o)
	{
		std::vector<double> v; std::vector<int64_t> t;
		for (size_t k = 0; k < np; k++) v.insert(v.end(), p[k], p[k] + 3);
		for (size_t k = 0; k < nf; k++)
		{
			if (f[k][0] != 3) throw std::runtime_error("a face that is no triangle");
			for (int i = 1; i <= 3; i++) t.push_back((int64_t)f[k][i]);
		}
		o.put(v); o.put(t);
	}
};
static std::string slurp(const char* n)
{
	std::ifstream f(n, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str();
}
static void spit(const char* n, const std::string& t)
{
	std::ofstream f(n, std::ios::binary); f << t; f.close();
}

// read: s* (texts) -> per text d[points] i[faces] s[clean.obj]; one object reads all of them
static void h_read(Args& a, Out& o)
{
	MeshingPolyMesh m;
	for (size_t k = 0; k < a.size(); k++)
	{
		remove("clean.obj"); spit("in.obj", a[k].s);
		Soup s;
		m.read_input_obj_file("in.obj", s.np, s.p, s.nf, s.f);
		s.put(o); o.put(slurp("clean.obj"));
	}
	remove("clean.obj"); remove("in.obj");
}
// weld: d[V] i[F] d[hmin] -> d[V] i[F]
static void h_weld(Args& a, Out& o)
{
	MeshingPolyMesh m; Soup s(a[0].d, a[1].i);
	m.weld_nearby_points(s.np, s.p, s.nf, s.f, a[2].d.at(0));
	s.put(o);
}
// save: d[V] i[F] -> s[text], d[V] i[F] read back
static void h_save(Args& a, Out& o)
{
	MeshingPolyMesh m; Soup s(a[0].d, a[1].i);
	m.save_mesh_obj("out.obj", s.np, s.p, s.nf, s.f);
	o.put(slurp("out.obj"));
	Soup r;
	m.read_input_obj_file("out.obj", r.np, r.p, r.nf, r.f);
	r.put(o);
	remove("out.obj"); remove("clean.obj");
}
// topo: d[V] i[F] i[pairs] -> i[per point: count, faces...] i[per pair: count, listed, faces...] i[same by members] d[normals] i[tight]
static void h_topo(Args& a, Out& o)
{
	Soup s(a[0].d, a[1].i);
	MeshingPolyMesh m;
	size_t** pf; double** fn;
	m.build_point_faces(s.np, s.nf, s.f, pf);
	std::vector<int64_t> r;
	for (size_t i = 0; i < s.np; i++) for (size_t k = 0; k <= pf[i][0]; k++) r.push_back((int64_t)pf[i][k]);
	o.put(r); r.clear();
	std::vector<int64_t> r2;
	m._points = s.p; m._num_points = s.np; m._faces = s.f; m._num_faces = s.nf; m._point_faces = pf;
	for (size_t q = 0; q + 1 < a[2].i.size(); q += 2)
	{
		size_t i = (size_t)a[2].i[q], j = (size_t)a[2].i[q + 1]; size_t* e;
		r.push_back((int64_t)m.get_num_edge_faces(i, j, s.f, pf));
		m.get_edge_faces(i, j, s.f, pf, e);
		for (size_t k = 0; k <= e[0]; k++) r.push_back((int64_t)e[k]);
		delete[] e;
		r2.push_back((int64_t)m.get_num_edge_faces(i, j));
		m.get_edge_faces(i, j, e);
		for (size_t k = 0; k <= e[0]; k++) r2.push_back((int64_t)e[k]);
		delete[] e;
	}
	o.put(r); o.put(r2);
	m.build_face_normals(s.p, s.nf, s.f, fn);
	std::vector<double> v;
	for (size_t k = 0; k < s.nf; k++) v.insert(v.end(), fn[k], fn[k] + 3);
	o.put(v);
	o.put(std::vector<int64_t>(1, m.water_tight_model() ? 1 : 0));
	s.put(o);
	m._points = 0; m._faces = 0; m._point_faces = 0; m._num_points = m._num_faces = 0;
}
// model: d[V] i[F] d[angle] i[pairs] -> the processed model: d[V] i[F] d[normals] i[sharp edges] i[corners] i[per pair: sharp] i[per point: count, faces...] d[xmin xmax diag]
static void h_model(Args& a, Out& o)
{
	Soup s(a[0].d, a[1].i);
	MeshingPolyMesh m(s.np, s.p, s.nf, s.f, a[2].d.at(0));
	Soup q; q.np = m._num_points; q.p = m._points; q.nf = m._num_faces; q.f = m._faces;
	q.put(o);
	std::vector<double> v;
	for (size_t k = 0; k < q.nf; k++) v.insert(v.end(), m._face_normal[k], m._face_normal[k] + 3);
	o.put(v);
	std::vector<int64_t> e, c, sh, pf;
	for (size_t k = 0; k < m._num_sharp_edges; k++) { e.push_back((int64_t)m._sharp_edges[k][0]); e.push_back((int64_t)m._sharp_edges[k][1]); }
	for (size_t k = 0; k < m._num_sharp_corners; k++) c.push_back((int64_t)m._sharp_corners[k]);
	for (size_t k = 0; k < q.nf; k++) for (int i = 1; i <= 3; i++) sh.push_back(m.sharp_edge(q.f[k][i], q.f[k][i % 3 + 1]) ? 1 : 0);
	for (size_t i = 0; i < q.np; i++) for (size_t k = 0; k <= m._point_faces[i][0]; k++) pf.push_back((int64_t)m._point_faces[i][k]);
	o.put(e); o.put(c); o.put(sh); o.put(pf);
	v.clear();
	v.insert(v.end(), m._xmin, m._xmin + 3); v.insert(v.end(), m._xmax, m._xmax + 3); v.push_back(m._diag);
	o.put(v);
	s.put(o);
}

int main()
{
	Table t;
	t["read"] = h_read; t["weld"] = h_weld; t["save"] = h_save; t["topo"] = h_topo; t["model"] = h_model;
	return serve(t);
}
