//@proof match kind=bounded unwind=8 timeout=200 bound=zones_with_up_to_32_transitions_at_any_times covers=timezone_match
//@proof local kind=bounded tier=thorough qkind=native unwind=5 timeout=250 bound=zones_with_one_transition_near_the_time_(any_offsets_up_to_15_hours) covers=timestamp_get_unixtime,timezone_match
//@proof file kind=native fuzz=4000 bound=seeded_random_zone_files_of_up_to_300_transitions covers=timezone_create,timezone_match,timezone_free
//@proof system kind=native fuzz=1 bound=every_transition_1970-2037_of_every_zone_installed,_against_the_C_library covers=timezone_mgr_open,timezone_mgr_find,timezone_match,timezone_create
#include <vf.h>
#include <amelie_runtime>
#include <vf_env.h>
#ifdef VF_CBMC
static int64_t local_time;
#define mktime(tm) ((void)(tm), (time_t)local_time)
#else
#include "os/vfs.c"
#include <ftw.h>
#include <dirent.h>
#endif
#include "lib/timezone.c"
#include "lib/timestamp.c"
#undef mktime
#ifndef VF_CBMC
/* the zone of the machine is not part of the contract */
#define readlink(a, b, c) vf_readlink(b)
static ssize_t vf_readlink(char* to)
{
	memcpy(to, "/usr/share/zoneinfo/Europe/Berlin", 33);
	return 33;
}
#include "lib/timezone_mgr.c"
#undef readlink
#include "lib/date.c"
#endif

static Timezone tz;
#ifdef VF_CBMC
#define NMAX 32
#else
#define NMAX 255
#endif
static int32_t      T[NMAX + 1];
static uint8_t      types[NMAX + 1];
static TimezoneTime times[256];

/*
 * contract timezone_match: with transitions t[0] < t[1] < ..., the offset in
 * force at a time is the one of the last transition not after it, and the
 * first one of the zone before any transition.
 */
VF_PROOF(match)
{
	vf_init();
	int n = vf_range(0, NMAX);
	/* the last transition which is not after the time, or -1 */
	int k = vf_srange(-1, NMAX - 1);
	VF_REQUIRES(k < n);
	int64_t time = vf_i64();
	VF_NATIVE_ONLY(time = (int32_t)time;)
#ifdef VF_CBMC
#define ONE(i) do { int32_t t_ = (int32_t)nondet_vf(); __CPROVER_assume((i) >= n || (t_ <= time) == ((i) <= k)); T[i] = t_; types[i] = (uint8_t)nondet_vf(); } while (0);
#define FOUR(i) ONE(i) ONE((i) + 1) ONE((i) + 2) ONE((i) + 3)
#define SIXTEEN(i) FOUR(i) FOUR((i) + 4) FOUR((i) + 8) FOUR((i) + 12)
#define MANY(i) SIXTEEN(i) SIXTEEN((i) + 16) SIXTEEN((i) + 32) SIXTEEN((i) + 48)
	SIXTEEN(0) SIXTEEN(16)
#else
	VF_REQUIRES(time > INT32_MIN + 1000000 && time < INT32_MAX - 1000000);
	for (int i = 0; i < n; i++)
	{
		T[i] = time + (i - k) * 1000 - vf_range(0, 999);
		types[i] = vf_u8();
	}
#endif
	tz.header.timecnt = n;
	tz.transition_times = (void*)T;
	tz.transition_types = types;
	tz.times = times;
	VF_REACH("match");
	TimezoneTime* got = timezone_match(&tz, time);
	if (k >= 0)
		VF_ENSURES(got == &times[types[k]], "timezone_match: the offset of the last transition not after the time");
	else
		VF_ENSURES(got == &times[0], "timezone_match: the first offset before any transition");
}

/*
 * contract timestamp_get_unixtime with a zone: a local time which exists in
 * the zone becomes an instant at which the clock of the zone shows it.
 */
static int64_t offset_at(int n, int64_t t)
{
	int at = 0;
	for (int i = 0; i < n; i++)
		if (T[i] <= t)
			at = types[i];
	return times[at].utoff;
}

VF_PROOF(local)
{
	vf_init();
#ifdef VF_CBMC
#define TRANS 1
#else
#define TRANS 3
#endif
	int n = vf_range(0, TRANS);
	for (int i = 0; i < TRANS; i++)
	{
		T[i] = (int32_t)vf_srange(INT32_MIN, INT32_MAX);
		VF_NATIVE_ONLY(T[i] = (i ? T[i - 1] : (int)vf_range(0, 1000000)) + 172800 + vf_range(0, 1000000);)
		/* transitions are apart, see assumptions */
		if (i > 0 && i < n)
			VF_REQUIRES((int64_t)T[i] - T[i - 1] > 2 * 86400);
		types[i] = vf_range(0, TRANS);
	}
	for (int i = 0; i <= TRANS; i++)
		times[i].utoff = vf_srange(-15 * 3600, 15 * 3600);
	tz.header.timecnt = n;
	tz.transition_times = (void*)T;
	tz.transition_types = types;
	tz.times = times;
	/* the local time of some instant */
	int64_t utc = vf_range(4 * 86400, 253402300799 - 2 * 86400);
	VF_NATIVE_ONLY(if (n) utc = (uint64_t)T[vf_range(0, n - 1)] + vf_srange(-40000, 40000);)
	VF_REQUIRES(utc >= 4 * 86400);
	int64_t local = utc + offset_at(n, utc);
	Timestamp ts;
	timestamp_init(&ts);
	ts.us = vf_range(0, 999999);
#ifdef VF_CBMC
	local_time = local;
#else
	setenv("TZ", "UTC", 1);
	time_t lt = local;
	gmtime_r(&lt, &ts.time);
#endif
	VF_REACH("local");
	int64_t us = ts.us;
	int64_t value = timestamp_get_unixtime(&ts, &tz);
	bool shown = false;
	for (int i = 0; i <= TRANS; i++)
	{
		int64_t r = local - times[i].utoff;
		if (value == r * 1000000 + us)
			shown = shown || offset_at(n, r) == times[i].utoff;
	}
	VF_ENSURES(shown, "local time: the clock of the zone shows it at the result");
}

#ifndef VF_CBMC
static char dir[512];
static int unlink_cb(const char* p, const struct stat* s, int f, struct FTW* w)
{
	(void)s; (void)f; (void)w;
	return remove(p);
}

static void put32(FILE* f, uint32_t v)
{
	v = htonl(v);
	fwrite(&v, 4, 1, f);
}

VF_PROOF(file)
{
	vf_init();
	const char* scratch = getenv("VF_SCRATCH");
	snprintf(dir, sizeof(dir), "%s/vf07.XXXXXX", scratch ? scratch : ".");
	VF_REQUIRES(mkdtemp(dir) != NULL);
	char path[600];
	snprintf(path, sizeof(path), "%s/zone", dir);
	int n = vf_range(0, 3) ? vf_range(0, 20) : vf_range(0, 300);
	int m = vf_range(1, 20);
	static int32_t t[300], off[20];
	static uint8_t ty[300];
	static uint8_t dst[20];
	int64_t at = INT32_MIN;
	if (vf_bool())
		at = -1000000;
	for (int i = 0; i < n; i++)
	{
		at += vf_range(0, 10000000);
		t[i] = at < INT32_MAX ? at : INT32_MAX;
		ty[i] = vf_range(0, m - 1);
	}
	FILE* f = fopen(path, "w");
	bool damaged = vf_range(0, 15) == 0;
	fwrite(damaged ? "TZxf2" : "TZif2", 5, 1, f);
	for (int i = 0; i < 15; i++)
		fputc(0, f);
	put32(f, 0); put32(f, 0); put32(f, 0);
	put32(f, n); put32(f, m); put32(f, 4);
	for (int i = 0; i < n; i++)
		put32(f, t[i]);
	fwrite(ty, n, 1, f);
	for (int i = 0; i < m; i++)
	{
		off[i] = vf_srange(-54000, 54000);
		dst[i] = vf_bool();
		put32(f, off[i]);
		fputc(dst[i], f);
		fputc(0, f);
	}
	fwrite("UTC", 4, 1, f);
	fclose(f);
	Str name;
	str_set_cstr(&name, "zone");
	auto zone = timezone_create(&name, path);
	VF_ENSURES(damaged == (zone == NULL), "zone file: read iff it is one");
	if (zone)
	{
		VF_REACH("zone");
		for (int i = 0; i < 60; i++)
		{
			int64_t time;
			if (n && vf_range(0, 3))
				time = (int64_t)t[vf_range(0, n - 1)] + vf_srange(-2, 2);
			else
				time = vf_srange(INT32_MIN, 253402300799);
			int type = 0;
			for (int k = 0; k < n; k++)
				if (t[k] <= time)
					type = ty[k];
			auto got = timezone_match(zone, time);
			VF_ENSURES(got->utoff == off[type] && got->is_dst == dst[type], "zone file: offset in force");
		}
		VF_ENSURES(str_is(&zone->name, "zone", 4), "zone file: name");
		timezone_free(zone);
	}
	nftw(dir, unlink_cb, 16, FTW_DEPTH | FTW_PHYS);
}

/* every zone installed on the machine, against the C library */
static TimezoneMgr mgr;
static void check_zone(const char* zone, const char* path)
{
	FILE* f = fopen(path, "r");
	if (! f)
		return;
	uint8_t h[44];
	bool ok = fread(h, 1, 44, f) == 44 && !memcmp(h, "TZif", 4);
	uint32_t cnt = 0;
	static int32_t t[4096];
	if (ok)
	{
		cnt = h[32] << 24 | h[33] << 16 | h[34] << 8 | h[35];
		VF_ENSURES(cnt < 4096, "zone: harness table");
		ok = fread(t, 4, cnt, f) == cnt;
		for (uint32_t i = 0; i < cnt; i++)
			t[i] = ntohl(t[i]);
	}
	fclose(f);
	Str name;
	str_set(&name, (char*)zone, strlen(zone));
	auto got = timezone_mgr_find(&mgr, &name);
	VF_ENSURES((got != NULL) == ok, "zones: every zone file is found by its name, and nothing else");
	if (! ok)
		return;
	char upper[300];
	int len = strlen(zone);
	for (int i = 0; i < len; i++)
		upper[i] = i & 1 ? toupper(zone[i]) : tolower(zone[i]);
	str_set(&name, upper, len);
	VF_ENSURES(timezone_mgr_find(&mgr, &name) == got, "zones: names are found whatever the case");
	str_set(&name, upper, len - 1);
	auto other = timezone_mgr_find(&mgr, &name);
	VF_ENSURES(other != got, "zones: a different name is not this zone");
	/* a file without a version 1 table says nothing */
	if (cnt == 0)
		return;
	char env[400];
	snprintf(env, sizeof(env), ":%s", path);
	setenv("TZ", env, 1);
	tzset();
	for (uint32_t i = 0; i < cnt; i++)
	{
		if (t[i] < 0)
			continue;
		for (int d = -1; d <= 1; d++)
		{
			time_t at = (time_t)t[i] + d;
			struct tm tm;
			localtime_r(&at, &tm);
			VF_ENSURES(timezone_match(got, at)->utoff == tm.tm_gmtoff, "zones: the offset in force at a time");
		}
	}
	VF_REACH("zone");
}

VF_PROOF(system)
{
	vf_init();
	const char* base = "/usr/share/zoneinfo";
	DIR* d = opendir(base);
	if (! d)
		return;
	char path[600], zone[300];
	snprintf(path, sizeof(path), "%s/Europe/Berlin", base);
	if (access(path, R_OK))
		return;
	timezone_mgr_init(&mgr);
	timezone_mgr_open(&mgr);
	VF_ENSURES(mgr.system && str_is(&mgr.system->name, "Europe/Berlin", 13), "zones: the zone of the machine");
	struct dirent* e;
	while ((e = readdir(d)))
	{
		if (e->d_name[0] == '.')
			continue;
		snprintf(path, sizeof(path), "%s/%s", base, e->d_name);
		if (e->d_type != DT_DIR)
		{
			check_zone(e->d_name, path);
			continue;
		}
		DIR* s = opendir(path);
		struct dirent* n;
		while (s && (n = readdir(s)))
		{
			if (n->d_name[0] == '.' || n->d_type == DT_DIR)
				continue;
			snprintf(zone, sizeof(zone), "%s/%s", e->d_name, n->d_name);
			snprintf(path, sizeof(path), "%s/%s", base, zone);
			check_zone(zone, path);
		}
		if (s)
			closedir(s);
	}
	closedir(d);
	timezone_mgr_free(&mgr);
	setenv("TZ", "UTC", 1);
	tzset();
}
#endif
