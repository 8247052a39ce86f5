// Stand-in for Naios/function2 (the submodule is empty here and there is no
// network): the part of its interface cpp-async-rpc relies on, with the same
// semantics -- move-only owning wrapper, empty call throws bad_function_call.
#ifndef VERIF_FUNCTION2_SHIM_HPP_
#define VERIF_FUNCTION2_SHIM_HPP_

#include <exception>
#include <functional>
#include <memory>
#include <type_traits>
#include <utility>

namespace fu2 {

using bad_function_call = std::bad_function_call;

namespace detail {

template <bool Copyable, typename Sig>
class fn;

template <bool Copyable, typename R, typename... A>
class fn<Copyable, R(A...)> {
  struct base {
    virtual ~base() = default;
    virtual R call(A... a) = 0;
    virtual std::unique_ptr<base> clone() const = 0;
  };
  template <typename F>
  struct impl final : base {
    F f;
    template <typename G>
    explicit impl(G&& g) : f(std::forward<G>(g)) {}
    R call(A... a) override {
      if constexpr (std::is_void_v<R>) {
        std::invoke(f, std::forward<A>(a)...);
      } else {
        return std::invoke(f, std::forward<A>(a)...);
      }
    }
    std::unique_ptr<base> clone() const override {
      if constexpr (Copyable) {
        return std::make_unique<impl<F>>(f);
      } else {
        return nullptr;
      }
    }
  };

 public:
  fn() noexcept = default;
  fn(std::nullptr_t) noexcept {}
  fn(fn&&) noexcept = default;
  fn& operator=(fn&&) noexcept = default;
  fn(const fn& o) : p_(Copyable && o.p_ ? o.p_->clone() : nullptr) {
    static_assert(Copyable, "unique_function is move-only");
  }
  fn& operator=(std::nullptr_t) noexcept {
    p_.reset();
    return *this;
  }
  template <typename F,
            typename = std::enable_if_t<
                !std::is_same_v<std::decay_t<F>, fn> &&
                std::is_invocable_v<std::decay_t<F>&, A...>>>
  fn(F&& f) : p_(std::make_unique<impl<std::decay_t<F>>>(std::forward<F>(f))) {}
  template <typename F,
            typename = std::enable_if_t<
                !std::is_same_v<std::decay_t<F>, fn> &&
                std::is_invocable_v<std::decay_t<F>&, A...>>>
  fn& operator=(F&& f) {
    p_ = std::make_unique<impl<std::decay_t<F>>>(std::forward<F>(f));
    return *this;
  }
  R operator()(A... a) {
    if (!p_) throw bad_function_call();
    return p_->call(std::forward<A>(a)...);
  }
  explicit operator bool() const noexcept { return static_cast<bool>(p_); }
  void swap(fn& o) noexcept { p_.swap(o.p_); }

 private:
  std::unique_ptr<base> p_;
};

// Move-only flavour: the copy operations must really be absent so that traits
// such as std::is_copy_constructible answer as they do with the original.
template <typename R, typename... A>
class ufn : public fn<false, R(A...)> {
  using B = fn<false, R(A...)>;

 public:
  using B::B;
  ufn() noexcept = default;
  ufn(ufn&&) noexcept = default;
  ufn& operator=(ufn&&) noexcept = default;
  ufn(const ufn&) = delete;
  ufn& operator=(const ufn&) = delete;
};
template <typename Sig>
struct ufn_of;
template <typename R, typename... A>
struct ufn_of<R(A...)> {
  using type = ufn<R, A...>;
};

}  // namespace detail

template <typename Sig>
using unique_function = typename detail::ufn_of<Sig>::type;
template <typename Sig>
using function = detail::fn<true, Sig>;

}  // namespace fu2

#endif  // VERIF_FUNCTION2_SHIM_HPP_
