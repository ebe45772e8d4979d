"""A client publishing and subscribing at a switch, and free ports."""
import asyncio, socket
from streamtasks.client import Client

class Site:
  """A switch with a client publishing and subscribing."""
  def __init__(self, switch): self.switch, self.got = switch, []
  async def start(self, pub, sub):
    self.client = Client(await self.switch.add_local_connection())
    self.client.start()
    self.out = self.client.out_topic(pub); await self.out.start(); await self.out.set_registered(True)
    self.inp = self.client.in_topic(sub); await self.inp.start(); await self.inp.set_registered(True)
    self.task = asyncio.create_task(self.run())
  async def run(self):
    while True: self.got.append((await self.inp.recv_data()).data)

def free_port():
  with socket.socket() as s: s.bind(("127.0.0.1", 0)); return s.getsockname()[1]
