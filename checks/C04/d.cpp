// the constructors of one type differ in whether they may throw
#include "common.hpp"
using namespace c04;
namespace {
	template<int Id, unsigned F>
	struct Mixed : Base {
		static constexpr int tag = Id;
		life::Obj<100 + Id, F> obj;
		Mixed() noexcept((F & life::NothrowDefault) != 0) {}
		explicit Mixed(int v) noexcept((F & life::NothrowValue) != 0) : obj{v} {}
		Mixed(int a, int b) noexcept((F & life::NothrowTwo) != 0) : obj{a, b} {}
		Mixed(Mixed const &) = default;
		Mixed(Mixed &&) = default;
		int id() const override { return Id; }
		long value() const override {
			use();
			return obj.value;
		}
		void set(long v) override { obj.value = static_cast<int>(v); }
		void copy_to(Base *dst) const override { new (dst) Mixed(*this); }
		void move_to(Base *dst) override { new (dst) Mixed(std::move(*this)); }
		size_t align() const override { return alignof(Mixed); }
		void const *address() const override { return this; }
		void use() const override { obj.use(); }
	};
	// copy_to may throw, move_to may not / the other way round
	template<bool NC>
	struct HBase {
		virtual ~HBase() = default;
		static void *operator new(size_t) = delete; // not to be created on its own; holders construct in place
		static void operator delete(void *) {}
		virtual int id() const = 0;
		virtual long value() const = 0;
		virtual void set(long v) = 0;
		virtual void copy_to(HBase *dst) const noexcept(NC) = 0;
		virtual void move_to(HBase *dst) noexcept(!NC) = 0;
		virtual size_t align() const = 0;
		virtual void const *address() const = 0;
		virtual void use() const = 0;
	};
	template<bool NC, int Id>
	struct Half : HBase<NC> {
		static constexpr int tag = Id;
		life::Obj<100 + Id, NC ? life::NothrowCopyCtor : life::NothrowMoveCtor> obj;
		Half() = default;
		explicit Half(int v) : obj{v} {}
		Half(int a, int b) : obj{a, b} {}
		int id() const override { return Id; }
		long value() const override {
			use();
			return obj.value;
		}
		void set(long v) override { obj.value = static_cast<int>(v); }
		void copy_to(HBase<NC> *dst) const noexcept(NC) override { ::new (static_cast<void *>(dst)) Half(*this); }
		void move_to(HBase<NC> *dst) noexcept(!NC) override { ::new (static_cast<void *>(dst)) Half(std::move(*this)); }
		size_t align() const override { return alignof(Half); }
		void const *address() const override { return this; }
		void use() const override { obj.use(); }
	};
} // namespace
PBT_PROP(mixed_noexcept, 20000) {
	run<Base, Mixed<1, life::NothrowDefault>, Mixed<2, life::NothrowValue>, Mixed<3, life::NothrowDefault | life::NothrowTwo>, Mixed<4, life::NothrowValue | life::NothrowTwo>>(ctx);
}
PBT_PROP(nothrow_copy_only, 10000) { run<HBase<true>, Half<true, 1>, Half<true, 2>>(ctx); }
PBT_PROP(nothrow_move_only, 10000) { run<HBase<false>, Half<false, 1>, Half<false, 2>>(ctx); }
