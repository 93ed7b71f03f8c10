// Random distributions whose outcome is chosen by the explorer (see vp.cc). Forced into every
// source file; covers the standard ones and the ones of boost.
#pragma once
#include "vp_std.h"

namespace vp
{
bool random_on();
double pick_real();                            // in (0, 1)
uint64_t pick_int(uint64_t n);                 // in [0, n)
uint64_t pick_binomial(uint64_t n, double p);  // in [0, n]
uint64_t pick_geometric(double p);

template <class G> double unit(G &g)
{
    static_assert(G::min() == 0, "");
    double m = double(G::max()) + 1.0;
    double v = double(g()) / m;
    return v < 1.0 ? v : 0.5;
}

template <class T = double> class uniform_real
{
  public:
    using result_type = T;
    explicit uniform_real(T a = T(0), T b = T(1)) : m_a(a), m_b(b)
    {
    }
    template <class G> T operator()(G &g) const
    {
        return at(g, m_a, m_b);
    }
    template <class G> static T at(G &g, T a, T b)
    {
        double u = random_on() ? pick_real() : unit(g);
        T v = T(a + (double(b) - double(a)) * u);
        return v < b ? v : std::nextafter(b, a);
    }
    T a() const { return m_a; }
    T b() const { return m_b; }
    T min() const { return m_a; }
    T max() const { return m_b; }
    void reset() {}

  private:
    T m_a, m_b;
};

template <class T = int> class uniform_int
{
  public:
    using result_type = T;
    explicit uniform_int(T a = T(0), T b = std::numeric_limits<T>::max()) : m_a(a), m_b(b)
    {
    }
    template <class G> T operator()(G &g) const
    {
        uint64_t n = uint64_t(m_b) - uint64_t(m_a) + 1;
        if (random_on())
            return T(uint64_t(m_a) + pick_int(n));
        return T(uint64_t(m_a) + (n ? uint64_t((unsigned __int128)(uint64_t(g())) * n >> 64) : uint64_t(g())));
    }
    T a() const { return m_a; }
    T b() const { return m_b; }
    T min() const { return m_a; }
    T max() const { return m_b; }
    void reset() {}

  private:
    T m_a, m_b;
};

template <class T = int, class R = double> class binomial
{
  public:
    using result_type = T;
    explicit binomial(T t = T(1), R p = R(0.5)) : m_t(t), m_p(p)
    {
    }
    template <class G> T operator()(G &g) const
    {
        if (random_on())
            return T(pick_binomial(uint64_t(m_t), double(m_p)));
        T out = 0;
        for (T i = 0; i < m_t; ++i)
            out += unit(g) < double(m_p) ? 1 : 0;
        return out;
    }
    T t() const { return m_t; }
    R p() const { return m_p; }
    void reset() {}

  private:
    T m_t;
    R m_p;
};

class bernoulli
{
  public:
    using result_type = bool;
    explicit bernoulli(double p = 0.5) : m_p(p)
    {
    }
    template <class G> bool operator()(G &g) const
    {
        return random_on() ? pick_binomial(1, m_p) != 0 : unit(g) < m_p;
    }
    void reset() {}

  private:
    double m_p;
};

template <class T = int, class R = double> class geometric
{
  public:
    using result_type = T;
    explicit geometric(R p = R(0.5)) : m_p(p)
    {
    }
    template <class G> T operator()(G &g) const
    {
        return random_on() ? T(pick_geometric(m_p)) : T(std::floor(std::log(1.0 - unit(g)) / std::log(1.0 - double(m_p))));
    }
    void reset() {}

  private:
    R m_p;
};
} // namespace vp

namespace std
{
template <class T = double> using vp_uniform_real_distribution = vp::uniform_real<T>;
template <class T = int> using vp_uniform_int_distribution = vp::uniform_int<T>;
template <class T = int> using vp_binomial_distribution = vp::binomial<T, double>;
template <class T = int> using vp_geometric_distribution = vp::geometric<T, double>;
using vp_bernoulli_distribution = vp::bernoulli;
} // namespace std
namespace boost
{
namespace random
{
template <class T = double> using vp_uniform_real_distribution = vp::uniform_real<T>;
template <class T = int> using vp_uniform_int_distribution = vp::uniform_int<T>;
template <class T = int, class R = double> using vp_binomial_distribution = vp::binomial<T, R>;
template <class T = int, class R = double> using vp_geometric_distribution = vp::geometric<T, R>;
template <class R = double> using vp_bernoulli_distribution = vp::bernoulli;
template <class T = double> using vp_uniform_01 = vp::uniform_real<T>;
} // namespace random
} // namespace boost
#define uniform_real_distribution vp_uniform_real_distribution
#define uniform_int_distribution vp_uniform_int_distribution
#define binomial_distribution vp_binomial_distribution
#define geometric_distribution vp_geometric_distribution
#define bernoulli_distribution vp_bernoulli_distribution
