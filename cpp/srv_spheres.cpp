// Harness server over MeshingSpheresMethods and MeshingPolyMesh::point_covered: sphere sets and queries.
#include "proto.h"
#include "MeshingSpheresMethods.h"
#include "MeshingPolyMesh.h"
using namespace proto;

// the set as the samplers keep it: points of four coordinates, the last one the radius
static void fill(MeshingSmartTree& t, const std::vector<double>& s, bool normals)
{
	for (size_t i = 0; i + 3 < s.size(); i += 4)
	{
		double* x = new double[4];
		for (size_t k = 0; k < 4; k++) x[k] = s[i + k];
		double n[3] = { 0, 0, 1 };
		size_t at[3] = { 3, i / 4, 7 };
		t.add_tree_point(4, x, normals ? n : 0, at);
		delete[] x;
	}
}
static std::vector<double> dump(MeshingSmartTree& t)
{
	std::vector<double> o;
	for (size_t i = 0; i < t.get_num_tree_points(); i++)
	{
		double* p = t.get_tree_point(i);
		o.insert(o.end(), p, p + 4);
	}
	return o;
}

// grade: i[brute balanced] d[lip] d[spheres 4n] -> d[spheres] i[shrunk]
static void h_grade(Args& a, Out& o)
{
	MeshingSmartTree t(3); MeshingSpheresMethods m;
	fill(t, a[2].d, false);
	if (a[0].i.at(1)) t.kd_tree_build_balanced();
	bool shrunk = false;
	if (a[0].i.at(0)) m.impose_lipschitz_continuity_brute(&t, a[1].d.at(0), shrunk);
	else m.impose_lipschitz_continuity(&t, a[1].d.at(0), shrunk);
	o.put(dump(t));
	o.put(std::vector<int64_t>(1, shrunk ? 1 : 0));
}

// query: i[balanced, (kind si sj sk)*] d[lip] d[spheres 4n] d[per query: alpha x...] -> i[answers]
//  0 point  1 edge  2 face  3 overlap (sphere)  4 point, listing the covering spheres  5 point and one sphere
static void h_query(Args& a, Out& o)
{
	MeshingSmartTree t(3); MeshingSpheresMethods m;
	static MeshingPolyMesh pm;
	fill(t, a[2].d, true);
	double lip = a[1].d.at(0);
	if (a[0].i.at(0)) t.kd_tree_build_balanced();
	std::vector<int64_t> r;
	size_t k = 0;
	for (size_t q = 1; q + 3 < a[0].i.size() + 0; q += 4)
	{
		int kind = (int)a[0].i[q];
		double al = a[3].d.at(k++);
		if (kind <= 2)
		{
			double* c[3];
			for (int i = 0; i <= kind; i++) { c[i] = new double[3]; for (int j = 0; j < 3; j++) c[i][j] = a[3].d.at(k++); }
			bool b = kind == 0 ? m.point_covered(c[0], &t, lip, al) : kind == 1 ? m.edge_covered(c, &t, lip, al) : m.face_covered(c, &t, lip, al);
			r.push_back(b ? 1 : 0);
			for (int i = 0; i <= kind; i++) delete[] c[i];
		}
		else if (kind == 3)
		{
			double* s = new double[4]; for (int j = 0; j < 4; j++) s[j] = a[3].d.at(k++);
			size_t n = 77; size_t* l = 0;
			m.get_overlapping_spheres(s, &t, lip, n, l);
			r.push_back((int64_t)n);
			for (size_t i = 0; i < n; i++) r.push_back((int64_t)l[i]);
			delete[] l; delete[] s;
		}
		else if (kind == 4)
		{
			double* x = new double[3]; for (int j = 0; j < 3; j++) x[j] = a[3].d.at(k++);
			size_t n = 0, cap = 2; size_t* l = new size_t[cap];
			bool b = pm.point_covered(x, &t, lip, al, (size_t)a[0].i[q + 1], (size_t)a[0].i[q + 2], (size_t)a[0].i[q + 3], n, cap, l);
			r.push_back(b ? 1 : 0); r.push_back((int64_t)n);
			for (size_t i = 0; i < n; i++) r.push_back((int64_t)l[i]);
			delete[] l; delete[] x;
		}
		else
		{
			double* x = new double[3]; for (int j = 0; j < 3; j++) x[j] = a[3].d.at(k++);
			double* s = new double[4]; for (int j = 0; j < 4; j++) s[j] = a[3].d.at(k++);
			r.push_back(m.point_covered(x, s, al) ? 1 : 0);
			delete[] x; delete[] s;
		}
	}
	o.put(r);
	o.put(dump(t));
}

int main()
{
	Table t;
	t["grade"] = h_grade; t["query"] = h_query;
	return serve(t);
}
