// Element types for the container harnesses: trivially copyable values, strings that own memory, and Tracked, which
// keeps a ledger of every live object by address.
#pragma once
#include "pbt.hpp"
#include <unordered_map>

namespace lv
{
struct Ledger
{
  std::unordered_map< void const *, int > live;            // address -> state (1 live, 2 moved from)
  std::unordered_set< void const * > gaps;                 // storage without an object that was relocated
  std::uint64_t gapMoves = 0;
  std::string error;
  bool tolerateGaps = false;
  void err( char const * what, void const * p ) { if( error.empty() ) { std::ostringstream o; o << what << " at " << p; error = o.str(); } }
};
inline Ledger & ledger() { static Ledger l; return l; }

/// An element that knows whether it is alive.
class Tracked
{
public:
  Tracked(): Tracked( 0 ) {}
  Tracked( int v ): m_v( v ), m_self( this ) { born(); }
  Tracked( Tracked const & o ): m_v( o.m_v ), m_self( this )
  {
    if( !o.isLive() ) ledger().err( "copied from storage that holds no object", &o );
    else if( o.moved() ) ledger().err( "copied from a moved-from object", &o );
    born();
  }
  Tracked( Tracked && o ) noexcept: m_v( 0 ), m_self( this )
  {
    auto & l = ledger();
    auto it = l.live.find( &o );
    if( it == l.live.end() )
    {
      if( !l.tolerateGaps ) l.err( "moved from storage that holds no object", &o );
      // Relocated a gap: there still is no object here.
      ++l.gapMoves;
      l.gaps.insert( &o );
      return;
    }
    m_v = o.m_v;
    o.m_v = -77777;
    bool const wasMoved = it->second == 2;
    it->second = 2;
    born();
    if( wasMoved ) l.live[ this ] = 2;
  }
  Tracked & operator=( Tracked const & o )
  {
    if( !isLive() ) ledger().err( "assigned to storage that holds no object", this );
    if( !o.isLive() ) ledger().err( "copy assigned from storage that holds no object", &o );
    else if( o.moved() ) ledger().err( "copy assigned from a moved-from object", &o );
    if( m_self != this ) ledger().err( "an object was relocated bytewise", this );
    m_v = o.m_v;
    ledger().live[ this ] = 1;
    return *this;
  }
  Tracked & operator=( Tracked && o ) noexcept
  {
    if( !isLive() ) ledger().err( "assigned to storage that holds no object", this );
    if( !o.isLive() ) { ledger().err( "move assigned from storage that holds no object", &o ); return *this; }
    if( m_self != this ) ledger().err( "an object was relocated bytewise", this );
    if( &o == this ) return *this;
    bool const wasMoved = o.moved();
    m_v = o.m_v;
    o.m_v = -77777;
    ledger().live[ &o ] = 2;
    ledger().live[ this ] = wasMoved ? 2 : 1;
    return *this;
  }
  ~Tracked()
  {
    auto & l = ledger();
    auto it = l.live.find( this );
    if( it == l.live.end() )
    {
      if( !l.gaps.erase( this ) ) l.err( "destroyed storage that holds no object", this );
      return;
    }
    if( m_self != this ) l.err( "an object was relocated bytewise", this );
    l.live.erase( it );
  }
  int value() const
  {
    if( !isLive() ) ledger().err( "read storage that holds no object", this );
    else if( moved() ) ledger().err( "read a moved-from object", this );
    else if( m_self != this ) ledger().err( "an object was relocated bytewise", this );
    return m_v;
  }
  bool operator==( Tracked const & o ) const { return value() == o.value(); }
  bool operator!=( Tracked const & o ) const { return value() != o.value(); }
  bool operator<( Tracked const & o ) const { return value() < o.value(); }
  bool operator>( Tracked const & o ) const { return value() > o.value(); }
  bool operator<=( Tracked const & o ) const { return value() <= o.value(); }
  bool operator>=( Tracked const & o ) const { return value() >= o.value(); }
  friend std::ostream & operator<<( std::ostream & s, Tracked const & t ) { return s << t.m_v; }
private:
  bool isLive() const { return ledger().live.count( this ) != 0; }
  bool moved() const { auto it = ledger().live.find( this ); return it != ledger().live.end() && it->second == 2; }
  void born()
  {
    auto & l = ledger();
    if( l.live.count( this ) ) l.err( "constructed over a live object", this );
    l.gaps.erase( this );
    l.live[ this ] = 1;
  }
  int m_v;
  void * m_self;
};

/// Element abstraction: every type holds an int.
template< typename T > struct Elem
{
  static T make( int v ) { return static_cast< T >( v ); }
  static int value( T const & t ) { return static_cast< int >( t ); }
};
template<> struct Elem< std::string >
{
  static std::string make( int v )
  {
    if( v == 0 ) return "";
    return v % 2 ? std::to_string( v ) : "a long string, longer than any small string buffer " + std::to_string( v );
  }
  static int value( std::string const & s )
  {
    if( s.empty() ) return 0;
    std::size_t const p = s.find_last_of( ' ' );
    int const v = std::atoi( s.c_str() + ( p == std::string::npos ? 0 : p + 1 ) );
    return make( v ) == s ? v : -99999;
  }
};
template<> struct Elem< Tracked >
{
  static Tracked make( int v ) { return Tracked( v ); }
  static int value( Tracked const & t ) { return t.value(); }
};
template< typename T > struct Elem< T * >
{
  static T * make( int v ) { return reinterpret_cast< T * >( static_cast< std::intptr_t >( v ) * 8 ); }
  static int value( T * const & p ) { return static_cast< int >( reinterpret_cast< std::intptr_t >( p ) / 8 ); }
};
/// Trivially copyable, but its default value is not all zero bits.
struct Init
{
  short v = 7;
  char tag = 3;
  bool operator==( Init const & o ) const { return v == o.v && tag == o.tag; }
  bool operator!=( Init const & o ) const { return !( *this == o ); }
  bool operator<( Init const & o ) const { return v < o.v; }
  bool operator>( Init const & o ) const { return v > o.v; }
  friend std::ostream & operator<<( std::ostream & s, Init const & i ) { return s << i.v; }
};
template<> struct Elem< Init >
{
  static Init make( int v ) { Init i; i.v = static_cast< short >( v ); return i; }
  static int value( Init const & i ) { return i.tag == 3 ? i.v : -99999; }
};
/// Nothing to do on destruction, but copying does more than copy bytes.
class Placed
{
public:
  Placed(): m_v( 0 ), m_self( this ) {}
  explicit Placed( int v ): m_v( v ), m_self( this ) {}
  Placed( Placed const & o ): m_v( o.m_v ), m_self( this ) {}
  Placed & operator=( Placed const & o ) { m_v = o.m_v; return *this; }
  int value() const { return m_self == this ? m_v : -99999; }
  bool operator==( Placed const & o ) const { return value() == o.value(); }
  bool operator!=( Placed const & o ) const { return value() != o.value(); }
  bool operator<( Placed const & o ) const { return value() < o.value(); }
  bool operator>( Placed const & o ) const { return value() > o.value(); }
  friend std::ostream & operator<<( std::ostream & s, Placed const & i ) { return s << i.m_v; }
private:
  int m_v;
  Placed const * m_self;
};
template<> struct Elem< Placed >
{
  static Placed make( int v ) { return Placed( v ); }
  static int value( Placed const & i ) { return i.value(); }
};
template< typename T > T mk( int v ) { return Elem< T >::make( v ); }
template< typename T > int val( T const & t ) { return Elem< T >::value( t ); }
/// The value of a value initialised element.
template< typename T > int dflt() { if constexpr( std::is_same< T, Init >::value ) return 7; else return 0; }
template< typename T > constexpr bool isTracked = std::is_same< T, Tracked >::value;

/// Start of a case.
inline void resetLedger( bool tolerateGaps = false ) { ledger() = Ledger {}; ledger().tolerateGaps = tolerateGaps; }
/// After every operation: no lifetime error so far, and if the expected count is not negative exactly that many live objects.
inline void checkLedger( long expectedLive, char const * where )
{
  auto & l = ledger();
  CHECK( l.error.empty(), "object lifetime: ", l.error, " after ", where );
  if( expectedLive >= 0 )
  {
    CHECK_EQ( static_cast< long >( l.live.size() ), expectedLive, "live objects after ", where );
    for( auto const & p : l.live ) CHECK( p.second == 1, "a contained object was left moved from after ", where );
  }
}
} // namespace lv
