// C38: what a configuration leaves out has a value all the same (the other reads: c35.cpp).
#include "common.hpp"
#include "config_parser.hpp"

namespace spec
{
void c38_print()
{
    Config::SimulationOptions options;
    vf::assume( !vf::throws( [&] { options = Config::parse_config_file( "config" ); } ) );
    vf::clear_printed();
    Config::print_settings( options );
    vf::holds( "something is printed", !vf::printed().empty() );
}
} // namespace spec
