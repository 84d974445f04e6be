/* A small WasmRS guest for the mesh checks.  Compiled once with
     clang --target=wasm32 -O2 -nostdlib -fno-builtin -c guest.c && wasm-ld --no-entry --stack-first -z stack-size=8192 guest.o -o guest.wasm
   into guest.wasm; the harness makes modules of it by replacing CONF.  It answers a request for its operation k by itself
   ("<tag>.<kind>.<k>:<data>"), holds the answer back, or relays the request to one of its imports and the answers back, with its tag before them. */
typedef unsigned char u8;
typedef unsigned int u32;
#define IMPORT(n) __attribute__((import_module("wasmrs"), import_name(n)))
#define EXPORT(n) __attribute__((export_name(n)))
IMPORT("__init_buffers") void init_buffers(u32 guest, u32 host);
IMPORT("__op_list") void op_list(u32 p, u32 n);
IMPORT("__send") void host_send(u32 pos);
__attribute__((import_module("wasi_snapshot_preview1"), import_name("proc_exit"))) void proc_exit(u32 code);

/* 16 bytes of mark; tag (4); length of the operation list (2, big endian); behaviour of operation k of kind 1..4 at [22 + 16*(kind-1) + k]:
   0 unknown, 1 answer, 2 hold, 3 release, 4 count of fire-and-forgets, 5 fail, 6 trap, 7 exit, 8 answer then trap, 9 answer then exit, 10 first value then trap,
   11 first value, then trap at the next frame of the stream, 16+j relay to import j (from j = 200: import 0xffffff00 + 16 + j); the operation list from 86.
   The last byte tells what fails while the module is started (BAD). */
#define OPS 86
#define BAD CONF[4095]
volatile u8 CONF[4096] = { 'z','z','v','e','r','i','f','-','m','e','s','h','-','c','o','n', [16 ... 4095] = 0x55 };

static u8 in[16 * 1024], out[16 * 1024];
static u32 fnf;
struct link { u32 mine, theirs, kind; };
static struct link links[64];
static u32 next_id;
static u32 held[64], nheld;

static u32 be(const u8 *p) { return (u32)p[0] << 24 | (u32)p[1] << 16 | (u32)p[2] << 8 | p[3]; }
static void put(u8 *p, u32 v) { p[0] = v >> 24; p[1] = v >> 16; p[2] = v >> 8; p[3] = v; }
static u32 tag(u8 *p) { u32 n = 0; for (; n < 4 && CONF[16 + n]; n++) p[n] = CONF[16 + n]; return n; }
static u32 num(u8 *p, u32 v) { u32 n = 0; if (v >= 10) n = num(p, v / 10); p[n] = '0' + v % 10; return n + 1; }
static void cat(u8 *p, const u8 *q, u32 n) { for (u32 k = 0; k < n; k++) p[k] = q[k]; }

/* sends a frame: header, then n bytes which are at out + 9 already */
static void go(u32 sid, u32 type, u32 flags, u32 n) {
	u32 len = 6 + n;
	out[0] = len >> 16; out[1] = len >> 8; out[2] = len;
	put(out + 3, sid);
	out[7] = type << 2 | flags >> 8; out[8] = flags;
	host_send(3 + len);
}
#define NEXT 32
#define COMPLETE 64
#define METADATA 256
static void fail(u32 sid, const char *why) {
	u32 n = 4;
	put(out + 9, 0x201);
	n += tag(out + 9 + n);
	for (; *why; why++) out[9 + n++] = *why;
	go(sid, 11, 0, n);
}
static void item(u32 sid, u32 flags, u32 kind, u32 k, const u8 *d, u32 n) {
	u8 *p = out + 9;
	p += tag(p);
	*p++ = '.'; *p++ = '0' + kind;
	*p++ = '.'; p += num(p, k);
	*p++ = ':';
	cat(p, d, n);
	go(sid, 10, flags, p + n - (out + 9));
}

static void request(u32 sid, u32 type, u32 flags, u8 *b, u32 n) {
	u32 kind = type - 3, mdn = 0, k;
	u8 *md;
	if (kind > 2) { b += 4; n -= 4; } /* initial amount */
	if (!(flags & METADATA)) { if (kind != 2) fail(sid, " no metadata"); return; }
	mdn = (u32)b[0] << 16 | (u32)b[1] << 8 | b[2];
	md = b + 3;
	b += 3 + mdn; n -= 3 + mdn;
	if (mdn < 4) { if (kind != 2) fail(sid, " short metadata"); return; }
	k = be(md);
	u32 how = k < 16 ? CONF[22 + 16 * (kind - 1) + k] : 0;
	if (how >= 16) {
		struct link *l = 0;
		for (u32 x = 0; x < 64; x++) if (!links[x].kind) { l = &links[x]; break; }
		if (!l) { fail(sid, " busy"); return; }
		l->theirs = sid; l->kind = kind; l->mine = next_id; next_id += 2;
		if (kind == 2) l->kind = 0;
		u8 *p = out + 9;
		if (kind > 2) { put(p, 0x7fffffff); p += 4; }
		p[0] = 0; p[1] = 0; p[2] = 8;
		put(p + 3, how < 216 ? how - 16u : 0xffffff00u + how); put(p + 7, 0);
		p += 11;
		cat(p, b, n);
		go(l->mine, type, METADATA, p + n - (out + 9));
		return;
	}
	if (kind == 2) { if (how == 1) fnf++; if (how == 6) __builtin_trap(); if (how == 7) proc_exit(0); return; }
	switch (how) {
	case 6: __builtin_trap();
	case 7: proc_exit(3);
	case 10: case 11:
		item(sid, NEXT, kind, k, b, n);
		if (how == 10) __builtin_trap();
		if (kind == 4) { put(out + 9, 0x7fffffff); go(sid, 8, 0, 4); }
		for (u32 x = 0; x < 64; x++) if (!links[x].kind) { links[x].kind = 10; links[x].theirs = sid; break; }
		return;
	case 1: case 8: case 9: /* answer */
		if (kind == 1) item(sid, NEXT | COMPLETE, kind, k, b, n);
		else if (kind == 3) {
			item(sid, NEXT, kind, k, b, n);
			item(sid, NEXT, kind, k, b, n);
			go(sid, 10, COMPLETE, 0);
		} else { /* channel: what comes in goes out */
			put(out + 9, 0x7fffffff);
			go(sid, 8, 0, 4);
			item(sid, NEXT, kind, k, b, n);
			for (u32 x = 0; x < 64; x++) if (!links[x].kind) { links[x].kind = 9; links[x].mine = k; links[x].theirs = sid; break; }
		}
		if (how == 8) __builtin_trap();
		if (how == 9) proc_exit(0);
		return;
	case 2: held[nheld++ & 63] = sid; return;
	case 3:
		for (u32 x = 0; x < nheld && x < 64; x++) item(held[x], NEXT | COMPLETE, 1, 99, b, 0);
		nheld = 0;
		item(sid, NEXT | COMPLETE, kind, k, b, 0);
		return;
	case 4: {
		u8 c[12];
		u32 m = num(c, fnf);
		item(sid, NEXT | COMPLETE, kind, k, c, m);
		return;
	}
	case 5: fail(sid, " fails"); return;
	default: fail(sid, " unknown operation");
	}
}

static void stream(u32 sid, u32 type, u32 flags, u8 *b, u32 n) {
	for (u32 x = 0; x < 64; x++) {
		struct link *l = &links[x];
		if (l->kind == 10 && l->theirs == sid) { l->kind = 0; __builtin_trap(); }
		if (l->kind == 9 && l->theirs == sid) {
			if (type == 10) {
				if (flags & NEXT) item(sid, NEXT, 4, l->mine, b, n);
				if (flags & COMPLETE) { l->kind = 0; go(sid, 10, COMPLETE, 0); }
			} else if (type == 11) { l->kind = 0; fail(sid, " input failed"); }
			else if (type == 9) l->kind = 0;
			return;
		}
		if (l->kind && l->kind < 9 && (l->mine == sid || l->theirs == sid)) {
			u32 back = l->mine == sid, to = back ? l->theirs : l->mine;
			u8 *p = out + 9;
			if (type == 10 && flags & METADATA) { u32 m = (u32)b[0] << 16 | (u32)b[1] << 8 | b[2]; b += 3 + m; n -= 3 + m; flags &= ~METADATA; }
			if (type == 10 && flags & NEXT && back) { p += tag(p); *p++ = '>'; }
			cat(p, b, n);
			if (back && (type == 11 || (type == 10 && flags & COMPLETE))) l->kind = 0;
			if (!back && type == 9) l->kind = 0;
			go(to, type, flags, p + n - (out + 9));
			return;
		}
	}
}

EXPORT("_start") void start(void) {
	switch (BAD) {
	case 1: __builtin_trap();
	case 2: proc_exit(0);
	case 3: proc_exit(1);
	case 4: init_buffers((u32)in, (u32)out);
	case 5: op_list((u32)CONF + OPS, 4);
	case 6: host_send(3);
	}
}
EXPORT("__wasmrs_init") u32 init(u32 a, u32 b, u32 c) {
	switch (BAD) {
	case 7: __builtin_trap();
	case 8: proc_exit(0);
	case 17: next_id = 1; init_buffers(0xffffff00, (u32)out); return 1; /* outside the memory */
	}
	next_id = 1; init_buffers((u32)in, (u32)out); return 1;
}
EXPORT("__wasmrs_op_list_request") void list(void) {
	u32 n = (u32)CONF[20] << 8 | CONF[21];
	switch (BAD) {
	case 9: __builtin_trap();
	case 10: proc_exit(0);
	case 11: op_list(0x7fffff00, n); return; /* outside the memory */
	case 12: op_list((u32)CONF + OPS, n - 1); return; /* cut off */
	case 13: op_list((u32)CONF + OPS + 1, n); return; /* no list at all */
	case 14: return; /* has no operations */
	case 15: op_list((u32)CONF + OPS, 0); return;
	case 16: op_list((u32)CONF + OPS, 0xffffffff); return;
	}
	op_list((u32)CONF + OPS, n);
}
EXPORT("__wasmrs_send") u32 send(u32 pos) {
	u32 at = 0;
	while (at + 3 <= pos) {
		u32 len = (u32)in[at] << 16 | (u32)in[at + 1] << 8 | in[at + 2];
		u8 *f = in + at + 3;
		u32 sid = be(f) & 0x7fffffff, tf = (u32)f[4] << 8 | f[5], type = tf >> 10, flags = tf & 1023;
		if (type >= 4 && type <= 7) request(sid, type, flags, f + 6, len - 6);
		else if (type >= 8) stream(sid, type, flags, f + 6, len - 6);
		at += 3 + len;
	}
	return 1;
}
