// Instrumented element types: every lifetime event is checked against a registry of live objects,
// and a fault (exception) can be injected at the n-th element operation that is allowed to throw.
#ifndef VERIF_LIFE_HPP
#define VERIF_LIFE_HPP

#include "pbt.hpp"

#include <compare>
#include <cstdint>
#include <cstring>
#include <functional>
#include <string>
#include <utility>
#include <vector>

namespace life {
	struct Injected {
		int magic = 0x1137;
	};

	struct World {
		struct Entry {
			void const *p;
			int type;
			unsigned size;
		};
		std::vector<Entry> live;
		std::string error;
		long fault_at = -1; // < 0: disarmed
		long ops = 0;
		bool fired = false;
		unsigned long constructed = 0;
		unsigned long destroyed = 0;

		void reset() {
			live.clear();
			error.clear();
			fault_at = -1;
			ops = 0;
			fired = false;
			constructed = destroyed = 0;
		}
		void arm(long at) {
			fault_at = at;
			ops = 0;
			fired = false;
		}
		void disarm() { fault_at = -1; }
		void err(char const *what) {
			if (error.empty()) {
				error = what;
			}
		}
		// a point where an element operation may throw
		void tick() {
			if (fault_at >= 0 && ops++ == fault_at) {
				fired = true;
				fault_at = -1;
				throw Injected{};
			}
		}
		void ctor(void const *p, int type, unsigned size) {
			++constructed;
			auto const *b = static_cast<char const *>(p);
			for (auto const &e : live) {
				auto const *o = static_cast<char const *>(e.p);
				if (b < o + e.size && o < b + size) {
					err("object constructed on top of a live object");
				}
			}
			live.push_back({p, type, size});
		}
		void dtor(void const *p, int type) {
			++destroyed;
			for (size_t i = live.size(); i-- > 0;) {
				if (live[i].p == p) {
					if (live[i].type != type) {
						err("object destroyed as another type than it was constructed as");
					}
					live.erase(live.begin() + static_cast<long>(i));
					return;
				}
			}
			err("destructor called for storage that holds no live object");
		}
		void touch(void const *p, int type) {
			for (auto const &e : live) {
				if (e.p == p) {
					if (e.type != type) {
						err("object used as another type than it was constructed as");
					}
					return;
				}
			}
			err("operation on storage that holds no live object");
		}
		void verify() const {
			if (!error.empty()) {
				throw pbt::Failure{"lifetime: " + error};
			}
		}
	};

	inline World world;

	inline constexpr int moved_value = -777;

	// an argument for constructors; can tell whether it was passed on as temporary
	struct Arg {
		int v;
		operator int() const & noexcept { return v; }
		operator int() && noexcept { return std::exchange(v, moved_value); }
	};
	// one as lvalue, one as temporary
	struct Args {
		Arg l, r;
		void check(bool used) const {
			PBT_CHECK_MSG(l.v != moved_value, "a constructor argument passed as lvalue was moved from");
			PBT_CHECK_MSG(!used || r.v == moved_value, "a constructor argument passed as temporary arrived as lvalue");
		}
	};

	enum Flags : unsigned {
		NothrowCopyCtor = 1,
		NothrowMoveCtor = 2,
		NothrowCopyAsn = 4,
		NothrowMoveAsn = 8,
		NoCopy = 16,
		NoMoveOps = 32, // move falls back to copy
		NothrowAll = 15,
		NothrowDefault = 64,  // default constructor
		NothrowValue = 128,   // constructor from one int
		NothrowTwo = 256,     // constructor from two ints
		NothrowEverything = NothrowAll | NothrowDefault | NothrowValue | NothrowTwo,
	};

	// fully instrumented type
	template<int Tag, unsigned F>
	struct Obj {
		static constexpr int tag = Tag;
		static constexpr bool copyable = (F & NoCopy) == 0;
		static constexpr bool resets_on_move = (F & NoMoveOps) == 0;

		int value;
		Obj const *self; // detects bytewise copies

		void reg(int v) {
			value = v;
			self = this;
			world.ctor(this, Tag, sizeof(Obj));
		}
		void use() const {
			world.touch(this, Tag);
			if (self != this) {
				world.err("object was copied bytewise");
			}
		}

		Obj() noexcept((F & NothrowDefault) != 0) {
			if constexpr ((F & NothrowDefault) == 0) {
				world.tick();
			}
			reg(0);
		}
		explicit Obj(int v) noexcept((F & NothrowValue) != 0) {
			if constexpr ((F & NothrowValue) == 0) {
				world.tick();
			}
			reg(v);
		}
		Obj(int a, int b) noexcept((F & NothrowTwo) != 0) {
			if constexpr ((F & NothrowTwo) == 0) {
				world.tick();
			}
			reg(a * 1000 + b);
		}
		Obj(Obj const &o) noexcept((F & NothrowCopyCtor) != 0) requires (copyable) {
			o.use();
			if constexpr ((F & NothrowCopyCtor) == 0) {
				world.tick();
			}
			reg(o.value);
		}
		Obj(Obj &&o) noexcept((F & NothrowMoveCtor) != 0) requires (resets_on_move) {
			o.use();
			if constexpr ((F & NothrowMoveCtor) == 0) {
				world.tick();
			}
			reg(o.value);
			if (&o != this) {
				o.value = moved_value;
			}
		}
		Obj &operator=(Obj const &o) noexcept((F & NothrowCopyAsn) != 0) requires (copyable) {
			use();
			o.use();
			if constexpr ((F & NothrowCopyAsn) == 0) {
				world.tick();
			}
			value = o.value;
			return *this;
		}
		Obj &operator=(Obj &&o) noexcept((F & NothrowMoveAsn) != 0) requires (resets_on_move) {
			use();
			o.use();
			if constexpr ((F & NothrowMoveAsn) == 0) {
				world.tick();
			}
			if (&o != this) {
				value = o.value;
				o.value = moved_value;
			}
			return *this;
		}
		~Obj() {
			if (self != this) {
				world.err("destructor of an object that was copied bytewise");
			}
			world.dtor(this, Tag);
			std::memset(static_cast<void *>(this), 0xDD, sizeof(*this));
		}
		friend bool operator==(Obj const &a, Obj const &b) {
			a.use();
			b.use();
			return a.value == b.value;
		}
		friend std::strong_ordering operator<=>(Obj const &a, Obj const &b) {
			a.use();
			b.use();
			return a.value <=> b.value;
		}
	};

	// assignment is trivial, construction and destruction are not
	template<int Tag>
	struct TrivAssign {
		static constexpr int tag = Tag;
		static constexpr bool copyable = true;
		static constexpr bool resets_on_move = false;
		int value;

		TrivAssign() {
			world.tick();
			value = 0;
			world.ctor(this, Tag, sizeof(TrivAssign));
		}
		explicit TrivAssign(int v) {
			world.tick();
			value = v;
			world.ctor(this, Tag, sizeof(TrivAssign));
		}
		TrivAssign(int a, int b) : TrivAssign{a * 1000 + b} {}
		TrivAssign(TrivAssign const &o) {
			o.use();
			world.tick();
			value = o.value;
			world.ctor(this, Tag, sizeof(TrivAssign));
		}
		TrivAssign &operator=(TrivAssign const &) = default;
		~TrivAssign() {
			world.dtor(this, Tag);
			value = -999;
		}
		void use() const { world.touch(this, Tag); }
		friend bool operator==(TrivAssign const &a, TrivAssign const &b) { return a.value == b.value; }
		friend std::strong_ordering operator<=>(TrivAssign const &a, TrivAssign const &b) { return a.value <=> b.value; }
	};

	// completely trivial
	template<int Tag>
	struct Triv {
		static constexpr int tag = Tag;
		static constexpr bool copyable = true;
		static constexpr bool resets_on_move = false;
		int value = 0;
		Triv() = default;
		explicit Triv(int v) : value{v} {}
		Triv(int a, int b) : value{a * 1000 + b} {}
		void use() const {}
		friend bool operator==(Triv const &, Triv const &) = default;
		friend auto operator<=>(Triv const &, Triv const &) = default;
	};

	// trivial except for the copy constructor / the move assignment / the destructor
	template<int Tag, int Which>
	struct Almost {
		static constexpr int tag = Tag;
		static constexpr bool copyable = true;
		static constexpr bool resets_on_move = false;
		int value = 0;
		Almost() = default;
		explicit Almost(int v) : value{v} {}
		Almost(int a, int b) : value{a * 1000 + b} {}
		Almost(Almost const &) requires (Which != 0) = default;
		Almost(Almost const &o) requires (Which == 0) : value{o.value} { world.tick(); }
		Almost(Almost &&) requires (Which != 1) = default;
		Almost(Almost &&o) requires (Which == 1) : value{o.value} { world.tick(); }
		Almost &operator=(Almost const &) requires (Which != 2) = default;
		Almost &operator=(Almost const &o) requires (Which == 2) {
			world.tick();
			value = o.value;
			return *this;
		}
		Almost &operator=(Almost &&) requires (Which != 3) = default;
		Almost &operator=(Almost &&o) requires (Which == 3) {
			world.tick();
			value = o.value;
			return *this;
		}
		~Almost() requires (Which != 4) = default;
		~Almost() requires (Which == 4) { value = -999; }
		void use() const {}
		friend bool operator==(Almost const &a, Almost const &b) { return a.value == b.value; }
	};

	template<typename T>
	concept instrumented = requires (T const &t) { t.use(); };
} // namespace life

#endif
