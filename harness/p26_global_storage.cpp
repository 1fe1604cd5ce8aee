// P26: a global storage is initialised on first access, finalised exactly once per initialisation, and usable again afterwards.
// Every history runs in a process of its own, because a global storage lives as long as the process, including its exit.
#include "coll.h"
#include <GlobalStorage.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
struct Shared { int logLen; int log[256]; int failed; char msg[400]; int done; };
static Shared* sh;
static void event(int e) { if (sh && sh->logLen < 256) sh->log[sh->logLen++] = e; }
static bool exiting;
// storages 0, 1 are independent, 2 accesses 0 while it is initialised, 3 accesses 1 while it is finalised
#define VALUE(ID) BEGIN_GLOBAL_STORAGE_CLASS(Store##ID) Ptr<int> data; int accesses = 0;
VALUE(0) INITIALIZE_GLOBAL_STORAGE_CLASS event(10); data = Ptr(new int(100)); accesses = 0; FINALIZE_GLOBAL_STORAGE_CLASS event(20); data = nullptr; END_GLOBAL_STORAGE_CLASS(Store0)
VALUE(1) INITIALIZE_GLOBAL_STORAGE_CLASS event(11); data = Ptr(new int(101)); accesses = 0; FINALIZE_GLOBAL_STORAGE_CLASS event(21); data = nullptr; END_GLOBAL_STORAGE_CLASS(Store1)
VALUE(2) INITIALIZE_GLOBAL_STORAGE_CLASS event(12); data = Ptr(new int(*GetStore0().data.Obj() + 2)); accesses = 0; FINALIZE_GLOBAL_STORAGE_CLASS event(22); data = nullptr; END_GLOBAL_STORAGE_CLASS(Store2)
VALUE(3) INITIALIZE_GLOBAL_STORAGE_CLASS event(13); data = Ptr(new int(103)); accesses = 0; FINALIZE_GLOBAL_STORAGE_CLASS event(23); if (!exiting) GetStore1().accesses++; data = nullptr; END_GLOBAL_STORAGE_CLASS(Store3)
template<typename F> void with(int id, F&& f) { switch (id) { case 0: f(GetStore0()); break; case 1: f(GetStore1()); break; case 2: f(GetStore2()); break; case 3: f(GetStore3()); break; } }
static void childFail(const char* format, ...) { if (sh->failed) return; sh->failed = 1; va_list ap; va_start(ap, format); vsnprintf(sh->msg, sizeof(sh->msg), format, ap); va_end(ap); }
struct Model { bool init[4] = {}; int acc[4] = {}; };
static void initialise(Model& m, int id, std::vector<int>& log) { if (m.init[id]) return; m.init[id] = true; m.acc[id] = 0; log.push_back(10 + id); if (id == 2) initialise(m, 0, log); }
static void child(const std::vector<int>& ops, int ids)
{
	Model m; void* where[4] = {};
	for (int op : ops)
	{
		std::vector<int> exp; int before = sh->logLen; bool sorted = false;
		if (op < 4)
		{
			initialise(m, op, exp); m.acc[op]++;
			with(op, [&](auto& s) { if (!s.IsInitialized()) childFail("an accessed storage is not initialised"); if (!s.data || *s.data.Obj() != (op == 2 ? 102 : 100 + op)) childFail("storage %d: an access sees no resource", op); s.accesses++; if (s.accesses != m.acc[op]) childFail("storage %d: %d accesses since it was initialised, expected %d", op, s.accesses, m.acc[op]); if (where[op] && where[op] != &s) childFail("storage %d moved", op); where[op] = &s; });
		}
		else
		{
			FinalizeGlobalStorage(); sorted = true;
			for (int i = 0; i < 4; i++) if (m.init[i]) exp.push_back(20 + i);
			if (m.init[3]) { /* its finaliser accessed storage 1, before or after the turn of storage 1 */ bool was = m.init[1]; bool now = GetStore1().data && sh->logLen >= before; (void)now; std::vector<int> got(sh->log + before, sh->log + sh->logLen); int i1 = (int)std::count(got.begin(), got.end(), 11), f1 = (int)std::count(got.begin(), got.end(), 21); if ((was ? 1 : 0) + i1 - f1 != 1) childFail("storage 1 was initialised %d times and finalised %d times", i1, f1); for (int i = 0; i < 4; i++) m.init[i] = false; m.init[1] = true; m.acc[1] = GetStore1().accesses; std::vector<int> rest; for (int e : got) if (e != 11 && e != 21) rest.push_back(e); std::vector<int> expRest; for (int e : exp) if (e != 21) expRest.push_back(e); std::sort(rest.begin(), rest.end()); std::sort(expRest.begin(), expRest.end()); if (rest != expRest) childFail("finalising ran %s, expected %s", show(rest).c_str(), show(expRest).c_str()); continue; }
			for (int i = 0; i < 4; i++) { m.init[i] = false; m.acc[i] = 0; }
		}
		std::vector<int> got(sh->log + before, sh->log + sh->logLen); if (sorted) { std::sort(got.begin(), got.end()); std::sort(exp.begin(), exp.end()); }
		if (got != exp) childFail("the operation ran %s, expected %s", show(got).c_str(), show(exp).c_str());
	}
}
static void history(Ctx& c, int ids, int depth)
{
	std::vector<int> ops; for (int i = 0; i < depth; i++) { int op = c.choose(ids + 1); if (op == ids) op = 4; ops.push_back(op); c.log(op == 4 ? "FinalizeGlobalStorage" : "access storage %d", op); c.step(); }
	static Shared* mem = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memset(mem, 0, sizeof(*mem));
	pid_t p = fork();
	if (p == 0) { sh = mem; child(ops, ids); exiting = true; mem->done = 1; exit(0); }
	int st; waitpid(p, &st, 0); MC_CHECK(!mem->failed, "%s", mem->msg); MC_CHECK(mem->done && WIFEXITED(st) && WEXITSTATUS(st) == 0, "the process ended abnormally (status %d)", st);
	// over the whole life of the process initialisation and finalisation alternate and every resource is finalised
	bool init[4] = {}; uint64_t h = 1;
	for (int i = 0; i < mem->logLen; i++) { int id = mem->log[i] % 10; bool fin = mem->log[i] >= 20; MC_CHECK(init[id] == fin, "storage %d was %s twice in a row", id, fin ? "finalised" : "initialised"); init[id] = !fin; h = mc::mix(h, mem->log[i]); }
	for (int i = 0; i < 4; i++) MC_CHECK(!init[i], "storage %d is not finalised when the process ends", i);
	c.state(h);
}
MC_SCENARIO(two_storages, 32, 3) { history(c, 2, c.bound(5, 7)); }
MC_SCENARIO(nested_initialisation, 32, 3) { history(c, 3, c.bound(4, 6)); }
MC_SCENARIO(access_while_finalising, 32, 3) { history(c, 4, c.bound(4, 5)); }
// many storages, registered in several orders, some of them accessed again after each finalisation
static int initOf[64], finOf[64];
template<int N> struct Many { BEGIN_GLOBAL_STORAGE_CLASS(Store) Ptr<int> data; INITIALIZE_GLOBAL_STORAGE_CLASS initOf[N]++; data = Ptr(new int(N)); FINALIZE_GLOBAL_STORAGE_CLASS finOf[N]++; data = nullptr; END_GLOBAL_STORAGE_CLASS(Store) };
template<int... N> static void touchOne(int i, std::integer_sequence<int, N...>) { (void)((N == i ? (void)(*Many<N>().GetStore().data.Obj() == N ? 0 : (childFail("storage %d sees no resource", N), 0)) : (void)0), ...); }
static void touchMany(int i) { touchOne(i, std::make_integer_sequence<int, 64>()); }
MC_SCENARIO(many_storages, 32, 3)
{
	int n = mc::bigSize(c, 1, 64), order = c.choose(3), again = c.choose(4), rounds = c.choose(3) + 1; c.log("%d storages in order %d, pattern %d, %d rounds", n, order, again, rounds); c.step(n * rounds);
	static Shared* mem = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memset(mem, 0, sizeof(*mem)); pid_t p = fork();
	if (p == 0)
	{
		sh = mem; atexit([] { for (int k = 0; k < 64; k++) if (initOf[k] != finOf[k]) childFail("storage %d was initialised %d and finalised %d times when the process ended", k, initOf[k], finOf[k]); }); int init[64] = {}, fin[64] = {}; bool live[64] = {};
		for (int r = 0; r < rounds; r++)
		{
			for (int j = 0; j < n; j++) { int i = order == 0 ? j : order == 1 ? n - 1 - j : (j % 2 ? j / 2 : n - 1 - j / 2); if (r && (again == 0 || (again == 1 && i % 2) || (again == 2 && i != 0))) continue; touchMany(i); if (!live[i]) { live[i] = true; init[i]++; } touchMany(i); for (int k = 0; k < n; k++) if (initOf[k] != init[k] || finOf[k] != fin[k]) { childFail("after accessing storage %d: storage %d was initialised %d and finalised %d times, expected %d and %d", i, k, initOf[k], finOf[k], init[k], fin[k]); break; } }
			if (r + 1 < rounds) { FinalizeGlobalStorage(); for (int k = 0; k < n; k++) { if (live[k]) { live[k] = false; fin[k]++; } if (initOf[k] != init[k] || finOf[k] != fin[k]) childFail("after finalising: storage %d was initialised %d and finalised %d times, expected %d and %d", k, initOf[k], finOf[k], init[k], fin[k]); } }
		}
		mem->done = 1; exit(0);
	}
	int st; waitpid(p, &st, 0); MC_CHECK(!mem->failed, "%s", mem->msg); MC_CHECK(mem->done && WIFEXITED(st) && WEXITSTATUS(st) == 0, "the process ended abnormally (status %d)", st); c.state(mc::hashBytes(&n, sizeof n, order * 16 + again * 4 + rounds));
}
// storages that finalise others, or all of them, while they are initialised or finalised: every set of such links, every set
// of initialised storages, every way to start; each initialised storage is finalised exactly once
struct Linked : GlobalStorage, GlobalStorageDescriptor
{
	int links = 0, initials = 0, finals = 0;
	Linked() { globalStorage = this; RegisterStorageDescriptor(this); }
	void InitializeResource() override { initials++; }
	void FinalizeResource() override;
};
static Linked* linked() { static Linked l[3]; return l; }
void Linked::FinalizeResource() { finals++; MC_CHECK(finals == 1, "a storage that is being finalised is finalised again"); for (int k = 0; k < 3; k++) if (links & (1 << k)) linked()[k].EnsureFinalized(); if (links & 8) FinalizeGlobalStorage(); }
MC_SCENARIO(finalise_each_other, 32, 3)
{
	Linked* l = linked(); int mask = c.choose(8), start = c.choose(4); for (int k = 0; k < 3; k++) { l[k].links = c.choose(16); l[k].initials = l[k].finals = 0; c.log("storage %d is %s and finalises %X", k, mask & (1 << k) ? "initialised" : "not initialised", l[k].links); }
	for (int k = 0; k < 3; k++) if (mask & (1 << k)) { l[k].EnsureInitialized(); l[k].EnsureInitialized(); MC_CHECK(l[k].initials == 1 && l[k].IsInitialized(), "a storage is initialised %d times", l[k].initials); c.step(); }
	c.log(start == 3 ? "FinalizeGlobalStorage" : "finalise storage %d", start);
	int reached = 0; std::vector<int> todo; auto reach = [&](int k) { if ((mask & (1 << k)) && !(reached & (1 << k))) { reached |= 1 << k; todo.push_back(k); } }; auto all = [&] { for (int k = 0; k < 3; k++) reach(k); };
	if (start == 3) all(); else reach(start); while (!todo.empty()) { int k = todo.back(); todo.pop_back(); for (int j = 0; j < 3; j++) if (l[k].links & (1 << j)) reach(j); if (l[k].links & 8) all(); }
	if (start == 3) FinalizeGlobalStorage(); else l[start].EnsureFinalized(); c.step(); c.state(mask * 4 + start + l[0].links * 64 + l[1].links * 1024 + l[2].links * 16384);
	for (int k = 0; k < 3; k++) { bool is = mask & (1 << k), was = reached & (1 << k); MC_CHECK(l[k].finals == was, "storage %d was finalised %d times, expected %d", k, l[k].finals, was); MC_CHECK(l[k].IsInitialized() == (is && !was), "storage %d: IsInitialized is wrong", k); }
	for (int k = 0; k < 3; k++) { l[k].links = 0; bool was = l[k].IsInitialized(); l[k].initials = l[k].finals = 0; l[k].EnsureInitialized(); MC_CHECK(l[k].initials == !was, "storage %d cannot be used again", k); l[k].EnsureFinalized(); MC_CHECK(l[k].finals == 1 && !l[k].IsInitialized(), "storage %d is finalised %d times", k, l[k].finals); }
}
