// Minimal stand-in for the parts of camp that LvArray uses (camp itself is not installed here).
#pragma once
#include <cstddef>
#include <tuple>
#include <type_traits>
#include <utility>

namespace camp
{
using idx_t = std::ptrdiff_t;

template< typename T, T... Is > struct int_seq
{
  using type = int_seq;
  using value_type = T;
  static constexpr std::size_t size() noexcept { return sizeof...( Is ); }
};
template< idx_t... Is > using idx_seq = int_seq< idx_t, Is... >;

template< typename T, T v > struct integral_constant : std::integral_constant< T, v > {};
template< idx_t N > using num = std::integral_constant< idx_t, N >;

namespace detail
{
template< typename T, typename S > struct from_std;
template< typename T, T... Is > struct from_std< T, std::integer_sequence< T, Is... > > { using type = int_seq< T, Is... >; };
}
template< typename T, T N > struct make_int_seq : detail::from_std< T, std::make_integer_sequence< T, N > > {};
template< typename T, T N > using make_int_seq_t = typename make_int_seq< T, N >::type;
template< idx_t N > struct make_idx_seq : make_int_seq< idx_t, N > {};
template< idx_t N > using make_idx_seq_t = typename make_idx_seq< N >::type;
template< typename... Ts > using idx_seq_for_t = make_idx_seq_t< sizeof...( Ts ) >;

template< idx_t N, typename Seq > struct seq_at;
template< idx_t N, typename T, T First, T... Rest >
struct seq_at< N, int_seq< T, First, Rest... > > : seq_at< N - 1, int_seq< T, Rest... > > {};
template< typename T, T First, T... Rest >
struct seq_at< 0, int_seq< T, First, Rest... > > { static constexpr T value = First; using type = std::integral_constant< T, First >; };

template< typename... Ts > struct list
{
  using type = list;
  static constexpr std::size_t size() noexcept { return sizeof...( Ts ); }
};
template< typename T > struct as_list_s;
template< typename L > struct size;
template< typename... Ts > struct size< list< Ts... > > { static constexpr idx_t value = sizeof...( Ts ); };
template< typename T, T... Is > struct size< int_seq< T, Is... > > { static constexpr idx_t value = sizeof...( Is ); };

template< typename L, typename N > struct at;
template< typename... Ts, typename N > struct at< list< Ts... >, N > { using type = typename std::tuple_element< N::value, std::tuple< Ts... > >::type; };
template< typename L, typename N > using at_t = typename at< L, N >::type;
template< typename L, idx_t N > using at_v = typename at< L, num< N > >::type;
template< typename L > using first = at_v< L, 0 >;
template< typename L > using second = at_v< L, 1 >;

template< typename... Ts > using tuple = std::tuple< Ts... >;
template< typename... Ts > constexpr std::tuple< std::decay_t< Ts >... > make_tuple( Ts && ... ts )
{ return std::tuple< std::decay_t< Ts >... >( std::forward< Ts >( ts )... ); }
template< idx_t N, typename... Ts > constexpr auto & get( std::tuple< Ts... > & t ) { return std::get< N >( t ); }
template< idx_t N, typename... Ts > constexpr auto const & get( std::tuple< Ts... > const & t ) { return std::get< N >( t ); }
template< typename T > struct tuple_size : std::tuple_size< std::decay_t< T > > {};

template< typename T > T * ptr_of();
template< typename T > T && declval_();
template< typename... Ts > constexpr void sink( Ts const & ... ) {}

namespace concepts
{
namespace metalib
{
template< bool... > struct bool_list {};
template< bool... Bs > struct all_of : std::is_same< bool_list< true, Bs... >, bool_list< Bs..., true > >::type {};
template< bool... Bs > struct none_of : std::is_same< bool_list< false, Bs... >, bool_list< Bs..., false > >::type {};
template< bool... Bs > struct any_of : std::integral_constant< bool, !none_of< Bs... >::value > {};
template< typename... Ts > using all_of_t = all_of< Ts::value... >;
template< typename... Ts > using none_of_t = none_of< Ts::value... >;
template< typename... Ts > using any_of_t = any_of< Ts::value... >;
}
}
template< bool... Bs > using all_of = concepts::metalib::all_of< Bs... >;
template< typename... Ts > using all_of_t = concepts::metalib::all_of_t< Ts... >;
template< bool... Bs > using any_of = concepts::metalib::any_of< Bs... >;
}
