// P29: the byte-indexed map and its allocator: every key has a slot of its own and nodes never move or overlap.
#include "coll.h"
typedef ByteObjectMap<int> Map;
static int cells[300];
// every ordered set of keys: writing one never disturbs another, in one map or in two maps that share an allocator
static void all(Map& m, int* const* model, const char* what) { for (int k = 0; k < 256; k++) { int* g = m.Get((vuint8_t)k); MC_CHECK(g == model[k], "%s: key %d holds %s", what, k, g ? model[k] ? "another object" : "an object it was never given" : "nothing"); } }
MC_SCENARIO(every_pair_of_keys, 64, 1)
{
	int a = c.choose(256), b = c.choose(256); int block = c.pick({ 1, 3, 7, 64 }); c.log("keys %d and %d, blocks of %d nodes", a, b, block); Map::Allocator al(block); Map m; int* model[256] = {}; all(m, model, "empty map");
	m.Set((vuint8_t)a, &cells[1], al); model[a] = &cells[1]; all(m, model, "after the first key");
	m.Set((vuint8_t)b, &cells[2], al); model[b] = &cells[2]; all(m, model, "after the second key");
	m.Set((vuint8_t)a, nullptr, al); model[a] = nullptr; all(m, model, "after erasing the first key");
	m.Set((vuint8_t)a, &cells[3], al); model[a] = &cells[3]; all(m, model, "after writing the first key again"); c.step(4); c.state(a * 256 + b);
}
static const int keys[] = { 0, 1, 3, 4, 15, 16, 63, 64, 128, 170, 192, 255 };
MC_SCENARIO(histories, 64, 3)
{
	int depth = c.bound(3, 4), block = c.pick({ 1, 2, 5, 65536 }); Map::Allocator al(block); Map a, b; int* ma[256] = {}; int* mb[256] = {};
	for (int i = 0; i < depth; i++)
	{
		int which = c.choose(2), k = keys[c.choose(12)]; int* v = c.flip() ? &cells[i + 1] : nullptr; c.log("map %d: [%d] = %s", which, k, v ? "object" : "nothing"); (which ? b : a).Set((vuint8_t)k, v, al); (which ? mb : ma)[k] = v; c.step();
		all(a, ma, "first map"); all(b, mb, "second map"); uint64_t h = 0; for (int k2 : keys) h = mc::mix(h, (ma[k2] ? ma[k2] - cells : 0) * 100 + (mb[k2] ? mb[k2] - cells : 0)); c.state(h);
	}
}
MC_SCENARIO(full_maps, 16, 2)
{
	int order = c.choose(6), block = c.pick({ 1, 3, 85, 100, 65536 }); Map::Allocator al(block); Map m; int* model[256] = {};
	for (int i = 0; i < 256; i++) { int k = order == 0 ? i : order == 1 ? 255 - i : order == 2 ? (i * 37) % 256 : order == 3 ? (i * 64 + i / 4) % 256 : order == 4 ? i ^ 0x55 : (i * 17 + 3) % 256; m.Set((vuint8_t)k, &cells[k], al); model[k] = &cells[k]; c.step(); if (i % 16 == 15) all(m, model, "while filling"); }
	all(m, model, "full map"); c.state(order * 8 + block);
}
// the allocator
struct Node { Tracked t; int pad[3]; };
MC_SCENARIO(allocator, 16, 2)
{
	int block = c.range(1, 9), n = c.choose(c.bound(40, 100));
	{
		PushOnlyAllocator<Node> al(block); std::vector<Node*> got; for (vint i : { 0, 1, 5 }) MC_CHECK(al.Get(i) == nullptr, "an empty allocator has objects");
		for (int i = 0; i < n; i++) { Node* p = al.Create(); MC_CHECK(p && mc::Registry::alive(&p->t), "the object is not constructed"); for (auto q : got) MC_CHECK(p + 1 <= q || q + 1 <= p, "two objects overlap"); p->t.v = i; got.push_back(p); c.step(); for (int k = 0; k <= i; k++) MC_CHECK(al.Get(k) == got[k] && got[k]->t.v == k, "object %d moved or changed", k); MC_CHECK(al.Get(i + 1) == nullptr && al.Get(i + 1 + block) == nullptr, "an object that was not created"); }
		c.state(block * 1000 + n);
	}
	MC_CHECK(mc::Registry::live() == 0, "%ld objects leaked", mc::Registry::live());
}

// as many objects as several blocks hold, with the default block size and others: the addresses stay and all are distinct
MC_SCENARIO(allocator_blocks, 16, 2)
{
	static const int blocks[] = { 0, 1, 2, 255, 256, 257, 1000, 4096, 65535, 65536, 65537 }; int block = blocks[c.choose(11)], around = c.choose(5), k = c.range(1, c.bound(3, 5)); int per = block ? block : 65536; if (per > 60000 && k > 2 && !c.thorough) return;
	int n = per * k + around - 2; if (n < 0) return; c.log("block size %d, %d objects", block, n); c.step(n); c.state(per * 10ull + k * 1000003ull + around);
	auto al = block ? new PushOnlyAllocator<int>(block) : new PushOnlyAllocator<int>(); std::vector<int*> got; got.reserve(n);
	for (int i = 0; i < n; i++) { int* p = al->Create(); *p = i; got.push_back(p); MC_CHECK(al->Get(i) == p, "object %d is not where it was created", i); if (i % 1009 == 0) MC_CHECK(al->Get(i + 1) == nullptr, "an object that was not created"); }
	for (int i = 0; i < n; i++) MC_CHECK(al->Get(i) == got[i] && *got[i] == i, "object %d of %d moved or was overwritten", i, n);
	MC_CHECK(al->Get(n) == nullptr, "an object that was not created"); delete al;
}
