// C03: the pair interaction of the basic Deffuant model.
#include "common.hpp"
#include "models/DeffuantModel.hpp"
#include <cmath>

namespace spec
{
void c03()
{
    auto net      = any_network<SimpleAgent>();
    auto gen      = vf::generator( "g" );
    auto settings = any_deffuant_settings();
    vf::assume( !settings.use_network );
    DeffuantModel model( settings, net, gen );

    any_opinions( net, "x" );
    size_t i = vf::pick( "i", vf::size( "n" ) );
    size_t j = vf::pick( "j", vf::size( "n" ) );
    size_t k = vf::pick( "k", vf::size( "n" ) );
    vf::assume( i != j );
    vf::assume( k != i && k != j );
    model.update_rule( net.agents[i], net.agents[j] );

    double diff = vf::real( "x", i ) - vf::real( "x", j );
    bool close  = std::abs( diff ) < vf::real( "threshold" );
    double step = close ? vf::real( "mu" ) * diff : 0.0;
    vf::same( "the first agent moves towards the second", net.agents[i].data.opinion, vf::real( "x", i ) - step );
    vf::same( "the second agent moves towards the first", net.agents[j].data.opinion, vf::real( "x", j ) + step );
    vf::same(
        "the sum is preserved", net.agents[i].data.opinion + net.agents[j].data.opinion,
        vf::real( "x", i ) + vf::real( "x", j ) );
    vf::same( "other agents stay", net.agents[k].data.opinion, vf::real( "x", k ) );
    same_network( "the network stays", net );

    // the parameters are not used up by an interaction
    model.update_rule( net.agents[i], net.agents[j] );
    double diff2 = diff - 2 * step;
    bool close2  = std::abs( diff2 ) < vf::real( "threshold" );
    double step2 = close2 ? vf::real( "mu" ) * diff2 : 0.0;
    vf::same( "a second interaction follows the same rule", net.agents[i].data.opinion, vf::real( "x", i ) - step - step2 );
    vf::same( "for both", net.agents[j].data.opinion, vf::real( "x", j ) + step + step2 );
}
} // namespace spec
