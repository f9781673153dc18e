// C01: one DeGroot iteration replaces every opinion by the weighted sum of the previous opinions of its neighbours.
#include "common.hpp"
#include "models/DeGroot.hpp"

namespace spec
{
void c01()
{
    auto net = any_network<SimpleAgent>();
    Config::DeGrootSettings settings;
    settings.convergence_tol = vf::real( "tol" );
    DeGrootModel model( settings, net );

    any_opinions( net, "x" );
    model.iteration(); // an earlier iteration, so that leftovers of it would show
    same_network( "network unchanged by an iteration", net );
    any_opinions( net, "y" );
    model.iteration();

    size_t i   = vf::pick( "i", vf::size( "n" ) );
    double sum = 0;
    for( size_t j = 0; j < vf::size( "deg", i ); j++ )
    {
        sum += vf::real( "w", i, j ) * vf::real( "y", vf::index( "nb", vf::size( "n" ), i, j ) );
    }
    vf::same( "opinion after an iteration", net.agents[i].data.opinion, sum );
    same_network( "network unchanged by an iteration", net );
}
} // namespace spec
