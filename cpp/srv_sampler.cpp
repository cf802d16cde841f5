// Harness server over the public feature detection of MeshingVoroCrustSampler.
#include "proto.h"
#include <pthread.h>
#include "MeshingVoroCrustSampler.h"
#include "MeshingSmartTree.h"
using namespace proto;

struct Job
{
	size_t np, nf; double** p; size_t** f; double thr; bool old; double rmin;
	MeshingVoroCrustSampler* s; MeshingSmartTree* surf; MeshingSmartTree* edge;
	size_t ne, nc; size_t** e; size_t* c;
	volatile bool done;
};
static void* work(void* q)
{
	Job* j = (Job*)q;
	if (j->old)
		j->s->detect_features_generate_point_clouds(j->np, j->p, j->nf, j->f, j->thr, j->rmin, j->surf, j->edge, j->ne, j->e, j->nc, j->c);
	else
		j->s->detect_features_generate_point_clouds_clean(j->np, j->p, j->nf, j->f, j->thr, j->surf, j->edge, j->ne, j->e, j->nc, j->c);
	j->done = true;
	return 0;
}
static void cloud(MeshingSmartTree* t, size_t step, Out& o)
{
	std::vector<double> x; std::vector<int64_t> a; std::vector<int64_t> cnt;
	size_t n = t->get_num_tree_points();
	for (size_t i = 0; i < n; i++)
	{
		a.push_back((int64_t)t->get_tree_point_attrib(i)[1]);
		if (i % step) continue;
		double* p = t->get_tree_point(i); double* m = t->get_tree_point_normal(i);
		for (int k = 0; k < 4; k++) x.push_back(p[k]);
		for (int k = 0; k < 3; k++) x.push_back(m[k]);
	}
	o.put(x); o.put(a);
}
// features: i[mode: 0 stop when the features are being sampled, 1 full; threads; step] d[V] i[F] d[cos thr, rmin]
//   -> i[sharp edges] i[sharp corners] i[input unchanged] (d[surface cloud] i[its faces] d[edge cloud] i[its edges])
static void h_features(Args& a, Out& o)
{
	Job j;
	bool full = a[0].i.at(0) != 0; size_t step = (size_t)a[0].i.at(2);
	j.np = a[1].d.size() / 3; j.nf = a[2].i.size() / 3; j.thr = a[3].d.at(0); j.rmin = a[3].d.at(1); j.old = j.rmin > 0;
	j.p = new double*[j.np]; j.f = new size_t*[j.nf];
	for (size_t k = 0; k < j.np; k++) { j.p[k] = new double[3]; for (int i = 0; i < 3; i++) j.p[k][i] = a[1].d[3 * k + i]; }
	for (size_t k = 0; k < j.nf; k++) { j.f[k] = new size_t[4]; j.f[k][0] = 3; for (int i = 0; i < 3; i++) j.f[k][1 + i] = (size_t)a[2].i[3 * k + i]; }
	j.s = new MeshingVoroCrustSampler((size_t)a[0].i.at(1));
	j.surf = new MeshingSmartTree(); j.edge = new MeshingSmartTree();
	j.ne = j.nc = 0; j.e = 0; j.c = 0; j.done = false;
	if (full) work(&j);
	else
	{
		pthread_t t;
		pthread_create(&t, 0, work, &j);
		while (!j.done && j.surf->get_num_tree_points() == 0 && j.edge->get_num_tree_points() == 0) usleep(50);
	}
	std::vector<int64_t> e, c, same(1, 1);
	for (size_t k = 0; k < j.ne; k++) { e.push_back((int64_t)j.e[k][0]); e.push_back((int64_t)j.e[k][1]); }
	for (size_t k = 0; k < j.nc; k++) c.push_back((int64_t)j.c[k]);
	for (size_t k = 0; k < j.np; k++) for (int i = 0; i < 3; i++) if (j.p[k][i] != a[1].d[3 * k + i]) same[0] = 0;
	for (size_t k = 0; k < j.nf; k++) for (int i = 0; i < 3; i++) if (j.f[k][1 + i] != (size_t)a[2].i[3 * k + i]) same[0] = 0;
	o.put(e); o.put(c); o.put(same);
	if (!full) return;
	cloud(j.surf, step, o); cloud(j.edge, step, o);
}

int main()
{
	Table t;
	t["features"] = h_features;
	return serve(t);
}
