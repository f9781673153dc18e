// C08: bots.
#include "common.hpp"
#include "models/ActivityDrivenModel.hpp"
#include "models/InertialModel.hpp"

namespace spec
{
template<typename ModelT, typename SettingsT>
void bots()
{
    using AgentT = typename ModelT::AgentT;
    auto net     = any_network<AgentT>();
    auto gen     = vf::generator( "g" );
    vf::assume( vf::size( "n_bots" ) > 0 );
    auto settings = any_activity_settings<SettingsT>();
    ModelT model( settings, net, gen );
    size_t b = vf::pick( "bot", vf::size( "n_bots" ) );
    vf::same( "a bot starts with its configured opinion", net.agents[b].data.opinion, vf::real( "bot_opinion", b ) );
    vf::same( "a bot starts with its configured activity", net.agents[b].data.activity, vf::real( "bot_activity", b ) );
    any_contacts( net );
    any_agents( net, "x" );
    model.iteration();
    vf::same( "a bot has its opinion after an iteration", net.agents[b].data.opinion, vf::real( "bot_opinion", b ) );
    any_agents( net, "y" );
    model.iteration();
    vf::same( "a bot has its opinion after a second iteration", net.agents[b].data.opinion, vf::real( "bot_opinion", b ) );
}

void c08_activity()
{
    bots<ActivityDrivenModel, Config::ActivityDrivenSettings>();
}

void c08_inertial()
{
    bots<InertialModel, Config::ActivityDrivenInertialSettings>();
}
} // namespace spec
