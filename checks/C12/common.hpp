#include "life.hpp"

#include <dice/template-library/static_string.hpp>

#include <cstdlib>
#include <memory>
#include <new>
#include <string>
#include <string_view>

namespace c12 {
	namespace dtl = dice::template_library;
	using life::world;

	enum Bits : unsigned { Pocca = 1, Pocma = 2, Pocs = 4, Always = 8, Fancy = 16 };

	// --- allocation registry
	struct Block {
		unsigned char *p;
		size_t bytes;
		int id;
	};
	struct Heap {
		std::vector<Block> blocks;
		std::string error;
		unsigned long allocs = 0;
		void reset() {
			for (auto &b : blocks) {
				std::free(b.p - 16);
			}
			blocks.clear();
			error.clear();
			allocs = 0;
		}
		void *get(size_t bytes, int id) {
			world.tick();
			++allocs;
			if (bytes == 0) {
				err("allocation of 0 elements");
			}
			auto *p = static_cast<unsigned char *>(std::malloc(bytes + 32)) + 16;
			std::memset(p, 0xEE, bytes);
			std::memset(p - 16, 0x5A, 16);
			std::memset(p + bytes, 0x5A, 16);
			blocks.push_back({p, bytes, id});
			return p;
		}
		void put(void *q, size_t bytes, int id, bool always) {
			for (size_t i = 0; i < blocks.size(); ++i) {
				if (blocks[i].p == q) {
					if (blocks[i].bytes != bytes) {
						err("deallocated with another size than allocated");
					}
					if (!always && blocks[i].id != id) {
						err("deallocated by an allocator that is not equal to the allocating one");
					}
					guards(blocks[i]);
					std::memset(blocks[i].p, 0xDD, bytes);
					std::free(blocks[i].p - 16);
					blocks.erase(blocks.begin() + static_cast<long>(i));
					return;
				}
			}
			err("deallocated memory that is not allocated");
		}
		void err(char const *w) {
			if (error.empty()) {
				error = w;
			}
		}
		void guards(Block const &b) {
			for (int i = 0; i < 16; ++i) {
				if (b.p[-1 - i] != 0x5A || b.p[b.bytes + static_cast<size_t>(i)] != 0x5A) {
					err("wrote outside of the allocated memory");
				}
			}
		}
		void verify() {
			for (auto const &b : blocks) {
				guards(b);
			}
			if (!error.empty()) {
				throw pbt::Failure{"memory: " + error};
			}
		}
		Block const *find(void const *q) const {
			for (auto const &b : blocks) {
				if (b.p == q) {
					return &b;
				}
			}
			return nullptr;
		}
	};
	inline Heap heap;

	// a minimal fancy pointer
	template<typename T>
	struct FPtr {
		using element_type = T;
		using value_type = std::remove_cv_t<T>;
		using difference_type = std::ptrdiff_t;
		using pointer = FPtr;
		using reference = T &;
		using iterator_category = std::random_access_iterator_tag;
		// stored xored so that bytes are not a usable pointer
		static constexpr uintptr_t key = 0x5555'5555'5555'0000ULL;
		uintptr_t bits = key;
		FPtr() = default;
		FPtr(std::nullptr_t) {}
		explicit FPtr(T *p) : bits{reinterpret_cast<uintptr_t>(p) ^ key} {}
		template<typename U> requires (std::is_convertible_v<U *, T *>)
		FPtr(FPtr<U> const &o) : bits{o.bits} {}
		T *get() const { return reinterpret_cast<T *>(bits ^ key); }
		T &operator*() const { return *get(); }
		T *operator->() const { return get(); }
		static FPtr pointer_to(T &t) { return FPtr{&t}; }
		explicit operator bool() const { return get() != nullptr; }
		friend bool operator==(FPtr const &a, FPtr const &b) { return a.bits == b.bits; }
		friend bool operator==(FPtr const &a, std::nullptr_t) { return a.get() == nullptr; }
		FPtr operator+(std::ptrdiff_t n) const { return FPtr{get() + n}; }
		T &operator[](std::ptrdiff_t n) const { return get()[n]; }
	};

	template<typename T, unsigned B>
	struct Alloc {
		using value_type = T;
		using pointer = std::conditional_t<(B & Fancy) != 0, FPtr<T>, T *>;
		using const_pointer = std::conditional_t<(B & Fancy) != 0, FPtr<T const>, T const *>;
		using propagate_on_container_copy_assignment = std::bool_constant<(B & Pocca) != 0>;
		using propagate_on_container_move_assignment = std::bool_constant<(B & Pocma) != 0>;
		using propagate_on_container_swap = std::bool_constant<(B & Pocs) != 0>;
		using is_always_equal = std::bool_constant<(B & Always) != 0>;
		template<typename U>
		struct rebind {
			using other = Alloc<U, B>;
		};
		int id = 0;
		Alloc() = default;
		explicit Alloc(int i) : id{i} {}
		pointer allocate(size_t n) { return pointer{static_cast<T *>(heap.get(n * sizeof(T), id))}; }
		void deallocate(pointer p, size_t n) { heap.put(std::to_address(p), n * sizeof(T), id, (B & Always) != 0); }
		friend bool operator==(Alloc const &a, Alloc const &b) { return (B & Always) != 0 || a.id == b.id; }
	};

	// case insensitive for the alphabet used here
	template<typename C>
	struct CiTraits : std::char_traits<C> {
		static constexpr C up(C c) { return c >= C{'a'} && c <= C{'z'} ? static_cast<C>(c - 32) : c; }
		static constexpr bool eq(C a, C b) { return up(a) == up(b); }
		static constexpr bool lt(C a, C b) { return up(a) < up(b); }
		static constexpr int compare(C const *a, C const *b, size_t n) {
			for (size_t i = 0; i < n; ++i) {
				if (lt(a[i], b[i])) {
					return -1;
				}
				if (lt(b[i], a[i])) {
					return 1;
				}
			}
			return 0;
		}
	};

	template<typename C, typename Tr, unsigned B>
	struct Driver {
		using A = Alloc<C, B>;
		using S = dtl::basic_static_string<C, Tr, A>;
		using V = std::basic_string_view<C, Tr>;
		using M = std::vector<C>;
		static constexpr int n = 3;

		struct Slot {
			alignas(S) unsigned char buf[sizeof(S)];
			bool alive = false;
			M model;
			int id = 0; // allocator, -1 unknown
			S &v() { return *std::launder(reinterpret_cast<S *>(buf)); }
			template<typename... Args>
			void make(Args &&...a) {
				std::memset(buf, 0xAB, sizeof buf);
				new (buf) S(std::forward<Args>(a)...);
				alive = true;
			}
			void destroy() {
				alive = false;
				v().~S();
			}
		};
		pbt::Ctx &ctx;
		Slot s[n];
		unsigned done = 0, faults = 0, cross = 0, transfers = 0;

		explicit Driver(pbt::Ctx &c) : ctx{c} {}
		~Driver() {
			world.disarm();
			for (auto &x : s) {
				if (x.alive) {
					x.destroy();
				}
			}
		}

		C ch() {
			switch (ctx.below(4)) {
				case 0: return static_cast<C>('a' + ctx.below(3));
				case 1: return static_cast<C>('A' + ctx.below(3));
				case 2: return static_cast<C>(0);
				default: return static_cast<C>(ctx.choice(~uint64_t{0}));
			}
		}
		M text() {
			// sometimes derived from another string so that equal and nearly equal contents are frequent
			if (ctx.chance(1, 3)) {
				M m = s[ctx.below(n)].model;
				switch (ctx.below(4)) {
					case 0: break;
					case 1: m.push_back(ch()); break;
					case 2:
						if (!m.empty()) {
							m.pop_back();
						}
						break;
					default:
						if (!m.empty()) {
							m[ctx.below(m.size())] = ch();
						}
						break;
				}
				return m;
			}
			size_t const len = ctx.chance(1, 30) ? ctx.size(3000) : ctx.size(40);
			M m;
			if (len > 60) {
				m.assign(len, ch());
				m[len / 2] = ch();
				return m;
			}
			for (size_t i = 0; i < len; ++i) {
				m.push_back(ch());
			}
			return m;
		}
		static V view(M const &m) { return V{m.data(), m.size()}; }
		static bool same(C const *p, size_t len, M const &m) { return len == m.size() && (len == 0 || std::memcmp(p, m.data(), len * sizeof(C)) == 0); }

		void verify() {
			heap.verify();
			size_t used = 0;
			for (int i = 0; i < n; ++i) {
				if (!s[i].alive) {
					continue;
				}
				S &v = s[i].v();
				S const &c = v;
				M const &m = s[i].model;
				PBT_CHECK_MSG(c.size() == m.size(), "slot " << i << " has size " << c.size() << ", expected " << m.size());
				PBT_CHECK(c.empty() == m.empty());
				C const *p = std::to_address(c.data());
				PBT_CHECK(std::to_address(v.data()) == p && v.begin() == p && c.begin() == p && c.cbegin() == p);
				PBT_CHECK(v.end() == p + m.size() && c.end() == p + m.size() && c.cend() == p + m.size());
				PBT_CHECK_MSG(same(p, c.size(), m), "slot " << i << " has wrong contents");
				if (!m.empty()) {
					++used;
					Block const *b = heap.find(p);
					PBT_CHECK(b != nullptr && b->bytes >= m.size() * sizeof(C));
					if ((B & Always) == 0 && s[i].id >= 0) {
						PBT_CHECK_MSG(b->id == s[i].id, "slot " << i << " uses memory of allocator " << b->id << ", expected " << s[i].id);
					}
					size_t const k = m.size() / 2;
					PBT_CHECK(v[k] == m[k] && c[k] == m[k] && &v[k] == p + k && &v.front() == p && &v.back() == p + (m.size() - 1));
					PBT_CHECK(c.front() == m.front() && c.back() == m.back());
					PBT_CHECK(*v.rbegin() == m.back() && *c.rbegin() == m.back() && *c.crbegin() == m.back());
					PBT_CHECK(v.rend() - v.rbegin() == static_cast<std::ptrdiff_t>(m.size()) && c.rend() - c.rbegin() == static_cast<std::ptrdiff_t>(m.size()) && c.crend() - c.crbegin() == static_cast<std::ptrdiff_t>(m.size()));
				}
				V const vw = c;
				PBT_CHECK(vw.data() == p && vw.size() == m.size());
			}
			PBT_CHECK_MSG(heap.blocks.size() == used, heap.blocks.size() << " blocks are allocated, but " << used << " non-empty strings are alive");
		}

		static int sgn(auto o) { return o < 0 ? -1 : o > 0 ? 1 : 0; }
		void compare(int i, int j) {
			S const &a = s[i].v();
			S const &b = s[j].v();
			V const x = view(s[i].model);
			V const y = view(s[j].model);
			bool const eq = x == y;
			int const o = sgn(x.compare(y));
			PBT_LOG("compare slot" << i << " slot" << j << " eq " << eq << " order " << o);
			PBT_CHECK((a == b) == eq && (a != b) == !eq);
			PBT_CHECK(sgn(a <=> b) == o && (a < b) == (o < 0) && (a <= b) == (o <= 0) && (a > b) == (o > 0) && (a >= b) == (o >= 0));
			PBT_CHECK((a == y) == eq && (y == a) == eq && (a != y) == !eq && (y != a) == !eq);
			PBT_CHECK(sgn(a <=> y) == o && sgn(y <=> a) == -o && (a < y) == (o < 0) && (y < a) == (o > 0) && (a >= y) == (o >= 0) && (y >= a) == (o <= 0));
		}

		// observed contents of a string whose value is not specified
		void observe(int i) {
			S const &c = s[i].v();
			if (c.size() > 0) {
				Block const *b = heap.find(std::to_address(c.data()));
				PBT_CHECK(b != nullptr && b->bytes >= c.size() * sizeof(C));
			}
			s[i].model.assign(c.begin(), c.end());
			s[i].id = -1;
		}

		int alive(int except = -1) {
			int l[n], k = 0;
			for (int i = 0; i < n; ++i) {
				if (s[i].alive && i != except) {
					l[k++] = i;
				}
			}
			return k == 0 ? -1 : l[ctx.below(static_cast<size_t>(k))];
		}

		bool attempt(pbt::fref<void()> f) {
			if (ctx.chance(1, 4)) {
				world.arm(0);
			}
			bool threw = false;
			try {
				f();
			} catch (life::Injected const &) {
				threw = true;
			}
			PBT_CHECK(threw == world.fired);
			world.disarm();
			world.fired = false;
			if (threw) {
				++faults;
				PBT_LOG("  -> allocation failed");
			}
			return !threw;
		}

		void drop(int t) {
			if (s[t].alive) {
				PBT_LOG("destroy slot" << t);
				s[t].destroy();
				s[t].model.clear();
				verify();
			}
		}

		void step() {
			++done;
			switch (ctx.below(9)) {
				case 0:
				case 1: {
					int const t = static_cast<int>(ctx.below(n));
					M const m = text();
					drop(t);
					int const id = static_cast<int>(ctx.below(3));
					if (ctx.chance(1, 6)) {
						PBT_LOG("slot" << t << " = S(alloc" << id << ")");
						s[t].make(A{id});
						s[t].model.clear();
						s[t].id = id;
						break;
					}
					PBT_LOG("slot" << t << " = S(text of length " << m.size() << ", alloc" << id << ")");
					if (attempt([&] { s[t].make(view(m), A{id}); })) {
						s[t].model = m;
						s[t].id = id;
					}
					break;
				}
				case 2: {
					int const t = static_cast<int>(ctx.below(n));
					drop(t);
					int const o = alive(t);
					if (o < 0) {
						break;
					}
					++transfers;
					PBT_LOG("slot" << t << " = S(slot" << o << ")");
					if (attempt([&] { s[t].make(std::as_const(s[o].v())); })) {
						s[t].model = s[o].model;
						s[t].id = s[o].id;
					}
					break;
				}
				case 3: {
					int const t = static_cast<int>(ctx.below(n));
					drop(t);
					int const o = alive(t);
					if (o < 0) {
						break;
					}
					++transfers;
					PBT_LOG("slot" << t << " = S(move(slot" << o << "))");
					s[t].make(std::move(s[o].v()));
					s[t].model = s[o].model;
					s[t].id = s[o].id;
					observe(o);
					break;
				}
				case 4:
				case 5: {
					int const t = alive();
					if (t < 0) {
						break;
					}
					int const o = alive();
					++transfers;
					cross += s[t].id != s[o].id;
					PBT_LOG("slot" << t << " = slot" << o);
					if (attempt([&] { PBT_CHECK(&(s[t].v() = std::as_const(s[o].v())) == &s[t].v()); })) {
						s[t].model = s[o].model;
						if ((B & Pocca) != 0 && t != o) {
							s[t].id = s[o].id;
						}
					}
					// a failed allocation leaves the target unchanged
					break;
				}
				case 6: {
					int const t = alive();
					int const o = t < 0 ? -1 : alive(t);
					if (o < 0) {
						break;
					}
					++transfers;
					cross += s[t].id != s[o].id;
					PBT_LOG("slot" << t << " = move(slot" << o << ")");
					if (attempt([&] { PBT_CHECK(&(s[t].v() = std::move(s[o].v())) == &s[t].v()); })) {
						s[t].model = s[o].model;
						if ((B & Pocma) != 0) {
							s[t].id = s[o].id;
						}
						observe(o);
					}
					break;
				}
				case 7: {
					int const t = alive();
					if (t < 0) {
						break;
					}
					int const o = alive();
					// like all containers: undefined for allocators that are neither equal nor swapped
					PBT_LOG("swap(slot" << t << ", slot" << o << ")");
					++transfers;
					swap(s[t].v(), s[o].v());
					std::swap(s[t].model, s[o].model);
					std::swap(s[t].id, s[o].id);
					break;
				}
				default: {
					int const t = alive();
					if (t < 0) {
						break;
					}
					if (s[t].model.empty() || ctx.flip()) {
						int const o = alive();
						compare(t, o);
						stream(t);
						break;
					}
					size_t const ix = ctx.below(s[t].model.size());
					C const c = ch();
					PBT_LOG("slot" << t << "[" << ix << "] = " << static_cast<unsigned long>(c));
					switch (ctx.below(3)) {
						case 0: s[t].v()[ix] = c; break;
						case 1: *(s[t].v().begin() + static_cast<std::ptrdiff_t>(ix)) = c; break;
						default: s[t].v().rbegin()[static_cast<std::ptrdiff_t>(s[t].model.size() - 1 - ix)] = c; break;
					}
					s[t].model[ix] = c;
					break;
				}
			}
		}

		void stream(int t);

		void run() {
			int k = 0;
			while (k < 60 && ctx.more(18)) {
				step();
				verify();
				++k;
			}
			for (int t = 0; t < n; ++t) {
				drop(t);
			}
			PBT_CHECK(heap.blocks.empty());
			if (done >= 3 && transfers > 0) {
				ctx.nontrivial();
			}
			if (faults) {
				ctx.label("with failed allocation");
			}
			if (cross) {
				ctx.label("assignment between different allocators");
			}
		}
	};

	template<typename C, typename Tr, unsigned B>
	void run(pbt::Ctx &ctx) {
		world.reset();
		heap.reset();
		{
			Driver<C, Tr, B> d{ctx};
			d.run();
		}
		heap.blocks.shrink_to_fit();
	}

	template<typename C, typename Tr, unsigned B>
	void Driver<C, Tr, B>::stream([[maybe_unused]] int t) {
#ifdef C12_STREAM
		if constexpr (std::is_same_v<C, char> || std::is_same_v<C, wchar_t>) {
			std::basic_ostringstream<C, Tr> a, b;
			if (ctx.flip()) {
				auto const w = static_cast<long>(ctx.below(30));
				C const f = static_cast<C>('*');
				a.width(w);
				b.width(w);
				a.fill(f);
				b.fill(f);
				if (ctx.flip()) {
					a << std::left;
					b << std::left;
				}
			}
			a << s[t].v() << static_cast<C>('|');
			b << view(s[t].model) << static_cast<C>('|');
			PBT_CHECK(a.str() == b.str());
			PBT_CHECK(a.good() == b.good());
		}
#endif
	}
} // namespace c12
