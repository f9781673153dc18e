// Forces the instantiation of every header template the program uses, so that the extractor sees all of them.
#include "agent_io.hpp"
#include "agents/activity_agent.hpp"
#include "agents/discrete_vector_agent.hpp"
#include "agents/inertial_agent.hpp"
#include "agents/simple_agent.hpp"
#include "config_parser.hpp"
#include "models/ActivityDrivenModel.hpp"
#include "models/DeGroot.hpp"
#include "models/DeffuantModel.hpp"
#include "models/InertialModel.hpp"
#include "network.hpp"
#include "network_generation.hpp"
#include "network_io.hpp"
#include "simulation.hpp"
#include "util/math.hpp"
#include "util/misc.hpp"

using namespace Seldon;

#define PER_AGENT( A )                                                                                                 \
    template class Seldon::Network<A>;                                                                                 \
    template class Seldon::Simulation<A>;                                                                              \
    template void Seldon::network_to_file<A>( const Network<A> &, const std::string & );                               \
    template void Seldon::network_to_dot_file<A>( const Network<A> &, const std::string & );                           \
    template void Seldon::agents_to_file<A>( const Network<A> &, const std::string & );                                \
    template std::vector<A> Seldon::agents_from_file<A>( const std::string & );                                        \
    template Network<A> Seldon::NetworkGeneration::generate_from_file<A>( const std::string & );                       \
    template Network<A> Seldon::NetworkGeneration::generate_n_connections<A>( size_t, size_t, bool, std::mt19937 & );  \
    template Network<A> Seldon::NetworkGeneration::generate_fully_connected<A>( size_t, std::mt19937 & );              \
    template Network<A> Seldon::NetworkGeneration::generate_fully_connected<A>( size_t, double );                      \
    template Network<A> Seldon::NetworkGeneration::generate_square_lattice<A>( size_t, double );

PER_AGENT( SimpleAgent )
PER_AGENT( DiscreteVectorAgent )
PER_AGENT( ActivityAgent )
PER_AGENT( InertialAgent )

template class Seldon::power_law_distribution<double>;
template class Seldon::truncated_normal_distribution<double>;
template class Seldon::bivariate_normal_distribution<double>;
template class Seldon::bivariate_gaussian_copula<double, power_law_distribution<double>, truncated_normal_distribution<double>>;
template int Seldon::hamming_distance<int>( std::span<int>, std::span<int> );

void inst_use( std::mt19937 & gen )
{
    power_law_distribution<> p( 0.1, 2.5 );
    p( gen );
    truncated_normal_distribution<> t( 1.0, 1.0, 0.1 );
    t( gen );
    bivariate_normal_distribution<> b( 0.5 );
    b( gen );
    bivariate_gaussian_copula c( 0.5, p, t );
    c( gen );
    std::vector<size_t> buf;
    reservoir_sampling_A_ExpJ( 3, 10, []( size_t j ) { return double( j ); }, buf, gen );
    auto cb = []( int, std::string & ) {};
    parse_comma_separated_list( "a,b", cb );
}
