// C24: comma-separated lists.
#include "common.hpp"
#include "util/misc.hpp"

namespace spec
{
// The entries between the commas of a text
inline std::vector<std::string> entries( const std::string & list )
{
    std::vector<std::string> res;
    size_t comma = std::string::npos; // the one before the entry
    do
    {
        size_t next = list.find( ',', comma + 1 );
        res.push_back( list.substr( comma + 1, next - comma - 1 ) );
        comma = next;
    } while( comma != std::string::npos );
    return res;
}

void c24()
{
    std::string list = vf::text( "list" );
    std::vector<std::string> called;
    std::vector<size_t> numbers;
    auto callback = [&]( int idx, std::string entry )
    {
        numbers.push_back( idx );
        called.push_back( entry );
    };
    parse_comma_separated_list( list, callback );
    auto expected = entries( list );
    vf::same( "one call per entry", called.size(), expected.size() );
    vf::same( "one number per call", numbers.size(), expected.size() );
    size_t k = vf::pick( "k", expected.size() );
    vf::same( "the entries in order", called[k], expected[k] );
    vf::same( "numbered from zero", numbers[k], k );
}
} // namespace spec
