/* Real data for the library's own distance code, and the order of closeness it implies. */
#ifndef GEO_H
#define GEO_H
#ifndef DIM
#define DIM 1
#endif
#ifndef G
#define G 3
#endif
#ifndef GR
#define GR 4
#endif
static double gx[N * DIM], gx0[N * DIM];
static double gd[N][N];           /* squared distances */
static double gr[4];              /* radii */

static void geo_data(void)
{
#if GEO == 1
	static const double ruler[7] = { 0, 1, 4, 10, 18, 23, 25 };
#ifndef MARKS
#define MARKS N
#endif
	bool used[MARKS] = { 0 };
	for (unsigned q = 0; q < N; q++) {
		unsigned v = MARKS - q > 1 ? vp_choice(MARKS - q) : 0;
		unsigned t = 0;
		for (unsigned c = 0; c < MARKS; c++) if (!used[c]) { if (v == 0) { t = c; break; } v--; }
		used[t] = true;
		gx[q] = ruler[t];
	}
#else
	for (unsigned i = 0; i < N * DIM; i++) gx[i] = (double) vp_choice(G);
#endif
	for (unsigned i = 0; i < N * DIM; i++) gx0[i] = gx[i];
	for (unsigned p = 0; p < N; p++)
		for (unsigned q = 0; q < N; q++) {
			double s = 0.0;
			for (unsigned d = 0; d < DIM; d++) s += (gx[p * DIM + d] - gx[q * DIM + d]) * (gx[p * DIM + d] - gx[q * DIM + d]);
			gd[p][q] = s;
		}
}

/* closest first; ties by index (any other order among ties is as good) */
static void geo_order(void)
{
	for (unsigned q = 0; q < N; q++) {
		for (unsigned p = 0; p < N; p++) {
			unsigned r = 0;
			for (unsigned v = 0; v < N; v++) if (v != p && (gd[q][v] < gd[q][p] || (gd[q][v] == gd[q][p] && v < p))) r++;
			st_ord[q][r] = p;
		}
	}
}

static void geo_cut(unsigned m)
{
	for (unsigned q = 0; q < N; q++) {
		unsigned c = 0;
		for (unsigned p = 0; p < N; p++) if (gd[q][p] <= gr[m] * gr[m]) c++;
		st_cut[m][q] = c;
	}
}

static void geo_radii(bool small, bool large)
{
	unsigned r = 1 + vp_choice(GR);
	gr[1] = 0.5 * r;
	if (small) r += vp_choice(GR);
	gr[2] = 0.5 * r;
	if (large) r += vp_choice(GR);
	gr[3] = 0.5 * r;
	for (unsigned m = 1; m <= 3; m++) geo_cut(m);
}

static void geo_set_radii(scc_ClusterOptions* o)
{
	if (o->seed_radius == SCC_RM_USE_SUPPLIED) o->seed_supplied_radius = gr[2];
	if (o->primary_radius == SCC_RM_USE_SUPPLIED) o->primary_supplied_radius = gr[(unsigned) o->primary_supplied_radius];
	if (o->secondary_radius == SCC_RM_USE_SUPPLIED) o->secondary_supplied_radius = gr[(unsigned) o->secondary_supplied_radius];
}
#endif
