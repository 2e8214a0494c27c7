//@use rt.inc
//@use cfun.inc
//@entry hosts q=60 shards=8 depth=6 covers=found,missing
//@entry nets q=60 shards=4 depth=6 covers=found,missing
//@entry protos q=60 shards=4 depth=6 covers=found,missing
//@entry servs q=60 shards=8 depth=6 covers=found,missing
//@entry many q=60 shards=4 depth=5 covers=done
//@entry hostname q=60 covers=name,fail
//@bounds entries with names of 0 to 2 arbitrary characters, 0 to 2 aliases, 0 to 3 addresses, every address, port and number; 700 aliases; questions of 0 to 2 arbitrary characters; allocation pointer fresh, at the last position before a collection, and past it
#include "cfun.inc"
#include <unistd.h>
#include <netdb.h>
#include <sys/types.h>
#include <sys/socket.h>
#include <netinet/in.h>
#define SO "SMLNJ-Sockets"
static int found, nal; static char nm[8], al0[8], pr[8], ips[3][4]; static char *als[800], *adrs[4]; static struct hostent he; static struct netent ne; static struct protoent pe; static struct servent se;
struct hostent *H_gethostbyname(const char *n) { sc_copy(sc_add("gethostbyname", 0, 0, 0, 0), 0, n); return found ? &he : NULL; }
struct hostent *H_gethostbyaddr(const void *a, socklen_t n, int t) { sc_t *s = sc_add("gethostbyaddr", n, t, 0, 0); sym_assert(n == 4 && sym_valid(a, 4), "address"); memcpy(s->s[0], a, 4); return found ? &he : NULL; }
struct netent *H_getnetbyname(const char *n) { sc_copy(sc_add("getnetbyname", 0, 0, 0, 0), 0, n); return found ? &ne : NULL; }
struct netent *H_getnetbyaddr(uint32_t n, int t) { sc_add("getnetbyaddr", n, t, 0, 0); return found ? &ne : NULL; }
struct protoent *H_getprotobyname(const char *n) { sc_copy(sc_add("getprotobyname", 0, 0, 0, 0), 0, n); return found ? &pe : NULL; }
struct protoent *H_getprotobynumber(int n) { sc_add("getprotobynumber", n, 0, 0, 0); return found ? &pe : NULL; }
static void prot(sc_t *s, const char *p) { s->a[3] = p != NULL; sc_copy(s, 1, p); }
struct servent *H_getservbyname(const char *n, const char *p) { sc_t *s = sc_add("getservbyname", 0, 0, 0, 0); sc_copy(s, 0, n); prot(s, p); return found ? &se : NULL; }
struct servent *H_getservbyport(int n, const char *p) { prot(sc_add("getservbyport", n, 0, 0, 0), p); return found ? &se : NULL; }
static int hret; static char hn[400]; static long hlen;
int H_gethostname(char *b, size_t n) { sc_add("gethostname", n, 0, 0, 0); sym_assert(sym_valid(b, n), "no room for the name"); if (hret == 0 && hlen + 1 > (long)n) { hret = -1; } if (hret < 0) return sc_fail(-1); memcpy(b, hn, hlen + 1); return 0; }
static void entry_data(void) { cc_sstr(nm, 2); nal = sym_choose(3); if (nal) { cc_sstr(al0, 1); als[0] = al0; als[1] = "second"; } als[nal] = NULL; }
static int is_aliases(ml_val_t l) { for (int i = 0; i < nal; i++) { if (!isBOXED(l) || !is_cstr(LIST_hd(l), als[i])) return 0; l = LIST_tl(l); } return l == LIST_nil; }
static int is_bytes(ml_val_t s, const char *v, long n) { if (!(isBOXED(s) && OBJ_DESC(s) == DESC_word8vec && REC_SEL(s, 1) == INT_CtoML(n))) return 0; const char *p = PTR_MLtoC(char, REC_SEL(s, 0)); int ok = 1; for (long i = 0; i < n; i++) ok &= p[i] == v[i]; return ok; }
static ml_val_t result(ml_val_t v, int n) { no_exn("raised"); if (!found) { sym_assert(v == OPTION_NONE, "a missing entry is reported"); sym_cover("missing"); return 0; } sym_assert(is_some(v), "an entry is missing"); v = REC_SEL(v, 0); sym_assert(is_rec(v, n), "record"); sym_assert(is_cstr(REC_SEL(v, 0), nm), "another name"); sym_assert(is_aliases(REC_SEL(v, 1)), "other aliases"); sym_cover("found"); return v; }
static int is_af(ml_val_t c, int t, const char *n) { return isBOXED(c) && REC_SEL(c, 0) == INT_CtoML(t) && is_cstr(REC_SEL(c, 1), n); }
static ml_val_t ask(const char *f, const char *sys, char *q, long qn, int p) { ml_val_t a = cc_str(q, qn); cc_position(p); ml_val_t v = cc_call(SO, f, a); sc_t *s = sc_only(sys); sym_assert(same(s->s[0], q, qn), "another entry is looked up"); return v; }
static void host(int p, int k) {
  char q[8]; int na = sym_choose(4); for (int i = 0; i < na; i++) { sym_bytes(ips[i], 4); adrs[i] = ips[i]; } adrs[na] = NULL; he.h_name = nm; he.h_aliases = als; he.h_addrtype = AF_INET; he.h_length = 4; he.h_addr_list = adrs; ml_val_t v;
  if (k == 0) { long qn = cc_sstr(q, 2); v = ask("getHostByName", "gethostbyname", q, qn, p); } else { sym_bytes(q, 4); ml_val_t a = cc_str(q, 4); cc_position(p); v = cc_call(SO, "getHostByAddr", a); sc_t *s = sc_only("gethostbyaddr"); int ok = s->a[1] == AF_INET; for (int i = 0; i < 4; i++) ok &= s->s[0][i] == q[i]; sym_assert(ok, "another host is looked up"); }
  if (!(v = result(v, 4))) return; sym_assert(is_af(REC_SEL(v, 2), AF_INET, "INET"), "another address family"); ml_val_t l = REC_SEL(v, 3); for (int i = 0; i < na; i++) { sym_assert(isBOXED(l) && is_bytes(LIST_hd(l), ips[i], 4), "another address"); l = LIST_tl(l); } sym_assert(l == LIST_nil, "more addresses"); }
static void net(int p, int k) {
  char q[8]; ne.n_name = nm; ne.n_aliases = als; ne.n_addrtype = AF_INET; ne.n_net = (uint32_t)sym_bits(32); ml_val_t v;
  if (k == 0) { long qn = cc_sstr(q, 2); v = ask("getNetByName", "getnetbyname", q, qn, p); } else { Word_t w = sym_bits(32); ml_val_t n = cc_str("INET", 4), c = ML_Alloc2(msp, INT_CtoML(AF_INET), n), a = cc_w64(w); a = ML_Alloc2(msp, a, c); cc_position(p); v = cc_call(SO, "getNetByAddr", a); sc_t *s = sc_only("getnetbyaddr"); sym_assert(((Unsigned32_t)s->a[0] == (Unsigned32_t)w) & (s->a[1] == AF_INET), "another network is looked up"); }
  if (!(v = result(v, 4))) return; sym_assert(is_af(REC_SEL(v, 2), AF_INET, "INET"), "another address family"); sym_assert(is_w64(REC_SEL(v, 3), ne.n_net), "another network"); }
static void proto(int p, int k) {
  char q[8]; pe.p_name = nm; pe.p_aliases = als; pe.p_proto = (int)sym_range(-0x80000000L, 0x7fffffff); ml_val_t v;
  if (k == 0) { long qn = cc_sstr(q, 2); v = ask("getProtByName", "getprotobyname", q, qn, p); } else { long n = sym_range(-0x80000000L, 0x7fffffff); cc_position(p); v = cc_call(SO, "getProtByNum", INT_CtoML(n)); sc_t *s = sc_only("getprotobynumber"); sym_assert(s->a[0] == n, "another protocol is looked up"); }
  if (!(v = result(v, 3))) return; sym_assert(REC_SEL(v, 2) == INT_CtoML(pe.p_proto), "another protocol"); }
static void serv(int p, int k) {
  char q[8], r[8]; long port = sym_range(0, 65535), qn = 0, rn = 0; int hasp = sym_choose(2), hi = (int)(port >> 8), lo = (int)(port & 255); se.s_name = nm; se.s_aliases = als; se.s_port = hi | lo << 8; se.s_proto = pr; cc_sstr(pr, 1); ml_val_t v, x, o = OPTION_NONE; if (hasp) { rn = cc_sstr(r, 1); o = cc_str(r, rn); OPTION_SOME(msp, o, o); } sc_t *s; long ask = sym_range(0, 65535);
  if (k == 0) { qn = cc_sstr(q, 2); x = cc_str(q, qn); x = ML_Alloc2(msp, x, o); cc_position(p); v = cc_call(SO, "getServByName", x); s = sc_only("getservbyname"); sym_assert(same(s->s[0], q, qn), "another service is looked up"); }
  else { x = ML_Alloc2(msp, INT_CtoML(ask), o); cc_position(p); v = cc_call(SO, "getServByPort", x); s = sc_only("getservbyport"); sym_assert((int)s->a[0] == (int)(ask >> 8 | (ask & 255) << 8), "another port is looked up"); }
  sym_assert(s->a[3] == hasp && (!hasp || same(s->s[1], r, rn)), "another protocol is asked for"); if (!(v = result(v, 4))) return; sym_assert(REC_SEL(v, 2) == INT_CtoML(port), "another port"); sym_assert(is_cstr(REC_SEL(v, 3), pr), "another protocol"); }
static int start(void) { cc_init(); sc_reset(); int p = sym_choose(3); found = sym_choose(2); entry_data(); return p; }
void entry_hosts(void) { int p = start(); host(p, sym_choose(2)); }
void entry_nets(void) { int p = start(); net(p, sym_choose(2)); }
void entry_protos(void) { int p = start(); proto(p, sym_choose(2)); }
void entry_servs(void) { int p = start(); serv(p, sym_choose(2)); }
void entry_many(void) { cc_init(); sc_reset(); int p = sym_choose(3); found = 1; strcpy(nm, "name"); nal = 700; for (int i = 0; i < nal; i++) als[i] = i & 1 ? "an alias" : "another alias"; als[nal] = NULL; int k = sym_choose(2); switch (sym_choose(4)) { case 0: host(p, k); break; case 1: net(p, k); break; case 2: proto(p, k); break; default: serv(p, k); } sym_cover("done"); }
void entry_hostname(void) { cc_init(); sc_reset(); int p = sym_choose(3); static const int ls[] = { 10, 62, 63, 64, 300 }; int k = sym_choose(8); if (k < 5) { hlen = ls[k]; memset(hn, 'h', hlen); hn[hlen] = 0; } else { hlen = k - 5; sym_bytes(hn, hlen); for (long i = 0; i < hlen; i++) sym_assume(hn[i] != 0); hn[hlen] = 0; } hret = sym_choose(2) ? -1 : 0; cc_position(p); ml_val_t v = cc_call(SO, "getHostName", ML_unit); sc_only("gethostname"); if (hret < 0) { is_syserr(); sym_cover("fail"); return; } no_exn("raised"); sym_assert(is_str(v, hn, hlen), "another host name"); sym_cover("name"); }
