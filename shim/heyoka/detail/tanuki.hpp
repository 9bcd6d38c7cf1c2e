// Stand-in for the type erasure library shipped by heyoka (heyoka/detail/tanuki.hpp), which is not installed in this
// sandbox.  It implements, with the documented semantics and nothing else, the part of the tanuki interface that kep3
// uses: tanuki::wrap over an interface with a reference interface, deep copies, value access, and boost::serialization
// support through the pointer to the interface.  It holds no kep3 logic: everything the checks look at lives in
// /repo's planet.hpp / planet.cpp / udpla.
#ifndef KEP3_VERIF_TANUKI_STANDIN_HPP
#define KEP3_VERIF_TANUKI_STANDIN_HPP

#include <concepts>
#include <cstddef>
#include <memory>
#include <stdexcept>
#include <type_traits>
#include <typeindex>
#include <typeinfo>
#include <utility>

#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/serialization/access.hpp>
#include <boost/serialization/assume_abstract.hpp>
#include <boost/serialization/base_object.hpp>
#include <boost/serialization/export.hpp>
#include <boost/serialization/nvp.hpp>
#include <boost/serialization/split_member.hpp>
#include <boost/serialization/tracking.hpp>

namespace tanuki
{

// Interface seen by the wrap: the user interface plus the value semantics primitives.
template <typename IFace>
struct value_iface : public IFace {
    virtual value_iface *_tanuki_clone() const = 0;
    virtual void *_tanuki_value_ptr() = 0;
    virtual const void *_tanuki_value_ptr() const = 0;
    virtual std::type_index _tanuki_type_index() const = 0;

private:
    friend class boost::serialization::access;
    template <typename Archive>
    void serialize(Archive &, unsigned)
    {
    }
};

namespace detail
{
template <typename T, typename IFace>
struct holder;

template <typename T, typename IFace>
using impl_t = typename IFace::template impl<value_iface<IFace>, holder<T, IFace>, T>;

template <typename T, typename IFace>
struct holder final : public impl_t<T, IFace> {
    T m_value;

    holder() : m_value() {}
    template <typename U>
        requires(!std::same_as<std::remove_cvref_t<U>, holder>)
    explicit holder(U &&x) : m_value(std::forward<U>(x))
    {
    }
    holder(const holder &) = delete;
    holder &operator=(const holder &) = delete;

    value_iface<IFace> *_tanuki_clone() const final
    {
        return new holder(m_value);
    }
    void *_tanuki_value_ptr() final
    {
        return std::addressof(m_value);
    }
    const void *_tanuki_value_ptr() const final
    {
        return std::addressof(m_value);
    }
    std::type_index _tanuki_type_index() const final
    {
        return typeid(T);
    }

private:
    friend class boost::serialization::access;
    template <typename Archive>
    void serialize(Archive &ar, unsigned)
    {
        ar &boost::serialization::base_object<value_iface<IFace>>(*this);
        ar & m_value;
    }
};

// An interface implementation exists for T only when its constraints are satisfied.
template <typename T, typename IFace>
concept has_impl = requires { typename IFace::template impl<value_iface<IFace>, holder<T, IFace>, T>; };
} // namespace detail

template <typename Default, typename RefIFace>
struct config {
    using default_value_type = Default;
    using ref_iface_type = RefIFace;
    std::size_t static_size = 0;
    std::size_t static_align = 0;
    bool pointer_interface = true;
};

template <typename IFace, auto Cfg>
class wrap;

namespace detail
{
template <typename T>
struct is_wrap : std::false_type {
};
template <typename IFace, auto Cfg>
struct is_wrap<wrap<IFace, Cfg>> : std::true_type {
};
} // namespace detail

template <typename IFace, auto Cfg>
class wrap : public decltype(Cfg)::ref_iface_type::template impl<wrap<IFace, Cfg>>
{
    using default_t = typename decltype(Cfg)::default_value_type;
    std::unique_ptr<value_iface<IFace>> m_p;

    friend class boost::serialization::access;
    void save(boost::archive::binary_oarchive &ar, unsigned) const
    {
        const value_iface<IFace> *p = m_p.get();
        ar << p;
    }
    void load(boost::archive::binary_iarchive &ar, unsigned)
    {
        value_iface<IFace> *p = nullptr;
        ar >> p;
        m_p.reset(p);
    }
    BOOST_SERIALIZATION_SPLIT_MEMBER()

public:
    wrap() : m_p(std::make_unique<detail::holder<default_t, IFace>>()) {}

    template <typename T>
        requires(!detail::is_wrap<std::remove_cvref_t<T>>::value && detail::has_impl<std::remove_cvref_t<T>, IFace>
                 && std::constructible_from<std::remove_cvref_t<T>, T>)
    wrap(T &&x) : m_p(std::make_unique<detail::holder<std::remove_cvref_t<T>, IFace>>(std::forward<T>(x)))
    {
    }

    wrap(const wrap &o) : m_p(o.m_p ? o.m_p->_tanuki_clone() : nullptr) {}
    wrap(wrap &&o) noexcept = default;
    wrap &operator=(const wrap &o)
    {
        if (this != &o) {
            m_p.reset(o.m_p ? o.m_p->_tanuki_clone() : nullptr);
        }
        return *this;
    }
    wrap &operator=(wrap &&o) noexcept = default;
    ~wrap() = default;

    friend bool is_valid(const wrap &w) noexcept
    {
        return static_cast<bool>(w.m_p);
    }
    friend bool is_invalid(const wrap &w) noexcept
    {
        return !w.m_p;
    }
    friend value_iface<IFace> *iface_ptr(wrap &w) noexcept
    {
        return w.m_p.get();
    }
    friend const value_iface<IFace> *iface_ptr(const wrap &w) noexcept
    {
        return w.m_p.get();
    }
    friend std::type_index value_type_index(const wrap &w)
    {
        return w.m_p->_tanuki_type_index();
    }
    friend void swap(wrap &a, wrap &b) noexcept
    {
        a.m_p.swap(b.m_p);
    }
};

// Access to the value from within an interface implementation.
template <typename Holder, typename Impl>
auto &getval(Impl *p)
{
    if constexpr (std::is_const_v<Impl>) {
        return static_cast<const Holder *>(p)->m_value;
    } else {
        return static_cast<Holder *>(p)->m_value;
    }
}

template <typename T, typename IFace, auto Cfg>
bool value_isa(const wrap<IFace, Cfg> &w)
{
    return value_type_index(w) == std::type_index(typeid(T));
}
template <typename T, typename IFace, auto Cfg>
T *value_ptr(wrap<IFace, Cfg> &w)
{
    return value_isa<T>(w) ? static_cast<T *>(iface_ptr(w)->_tanuki_value_ptr()) : nullptr;
}
template <typename T, typename IFace, auto Cfg>
const T *value_ptr(const wrap<IFace, Cfg> &w)
{
    return value_isa<T>(w) ? static_cast<const T *>(iface_ptr(w)->_tanuki_value_ptr()) : nullptr;
}
template <typename T, typename IFace, auto Cfg>
T &value_ref(wrap<IFace, Cfg> &w)
{
    auto *p = value_ptr<T>(w);
    return p ? *p : throw std::bad_cast();
}

} // namespace tanuki

#define TANUKI_REF_IFACE_MEMFUN(name)                                                                                  \
    template <typename JustWrap = Wrap, typename... MemFunArgs>                                                        \
    auto name(MemFunArgs &&...args) const->decltype(                                                                   \
        iface_ptr(*static_cast<const JustWrap *>(this))->name(std::forward<MemFunArgs>(args)...))                      \
    {                                                                                                                  \
        return iface_ptr(*static_cast<const JustWrap *>(this))->name(std::forward<MemFunArgs>(args)...);               \
    }

#define TANUKI_S11N_WRAP_EXPORT_KEY(ud, ...)                                                                           \
    namespace boost::serialization                                                                                     \
    {                                                                                                                  \
    template <>                                                                                                        \
    struct guid_defined<tanuki::detail::holder<ud, __VA_ARGS__>> : boost::mpl::true_ {                                 \
    };                                                                                                                 \
    template <>                                                                                                        \
    inline const char *guid<tanuki::detail::holder<ud, __VA_ARGS__>>()                                                 \
    {                                                                                                                  \
        return "tanuki::wrap<" #__VA_ARGS__ ">@" #ud;                                                                  \
    }                                                                                                                  \
    }

#define TANUKI_S11N_WRAP_EXPORT_IMPLEMENT(ud, ...)                                                                     \
    namespace boost::archive::detail::extra_detail                                                                     \
    {                                                                                                                  \
    template <>                                                                                                        \
    struct init_guid<tanuki::detail::holder<ud, __VA_ARGS__>> {                                                        \
        static guid_initializer<tanuki::detail::holder<ud, __VA_ARGS__>> const &g;                                     \
    };                                                                                                                 \
    guid_initializer<tanuki::detail::holder<ud, __VA_ARGS__>> const                                                    \
        &init_guid<tanuki::detail::holder<ud, __VA_ARGS__>>::g                                                         \
        = ::boost::serialization::singleton<                                                                           \
              guid_initializer<tanuki::detail::holder<ud, __VA_ARGS__>>>::get_mutable_instance()                       \
              .export_guid();                                                                                          \
    }

#define TANUKI_S11N_WRAP_EXPORT(ud, ...)                                                                               \
    TANUKI_S11N_WRAP_EXPORT_KEY(ud, __VA_ARGS__)                                                                       \
    TANUKI_S11N_WRAP_EXPORT_IMPLEMENT(ud, __VA_ARGS__)

#endif
