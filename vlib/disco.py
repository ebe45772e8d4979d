"""A real discovery service attached to a random network."""
import asyncio
from streamtasks.client.discovery import wait_for_topic_signal
from streamtasks.services.constants import NetworkTopics
from streamtasks.services.discovery import DiscoveryWorker
from vlib.net import *

async def with_discovery(ctx, kinds, n_switch):
  net = Net(ctx, kinds)
  await net.tree(n_switch)
  w = DiscoveryWorker()
  a, b, _, _ = await make_pair(ctx.rng, net.kind())
  await net.switches[ctx.rng.randrange(n_switch)].add_link(a)
  await w.switch.add_link(b)
  net.discovery, net.discovery_task = w, asyncio.create_task(w.run())
  probe = await net.add_client()
  await asyncio.wait_for(wait_for_topic_signal(probe.client, NetworkTopics.DISCOVERY_SIGNAL), 60)
  await settle(3)
  net.probe = probe
  return net
