"""Stand-ins for the hardware and the models some tasks use. Import this before any task module.

They keep the interface of the real libraries: what a call is given is recorded, and what it gives is tagged, so that
a monitor can tell every single sample, pixel and text apart. `mss` keeps its own `grab`."""
import sys, threading, time, types
import numpy as np

class World:
  """What the current case lets the devices do, and what they saw."""
  def __init__(self):
    self.lock = threading.Lock()
    self.delay = lambda: 0.002   # of one device call
    self.events = []             # (kind, ...) in the order of calls
    self.open = 0                # devices open at the moment
    self.fail_at = None          # the call that fails
    self.size = (64, 48)         # of a camera frame
    self.solid = False
    self.native_alpha = 17
    self.reply = None            # what a model does
  def note(self, *e):
    with self.lock: self.events.append(e)
  def of(self, kind):
    with self.lock: return [e for e in self.events if e[0] == kind]
  def opened(self, n):
    with self.lock: self.open += n

world = World()
def fresh():
  global world
  world = World()
  return world

# ---------------------------------------------------------------- screen
def screen_pixels(left, top, width, height, n, alpha):
  px = np.empty((height, width, 4), np.uint8)
  px[..., 0] = ((np.arange(width) + left) % 251)[None, :]
  px[..., 1] = ((np.arange(height) + top) % 241)[:, None]
  px[..., 2] = n % 239
  px[..., 3] = alpha
  return px

def _install_mss():
  import mss, mss.base
  class Screen(mss.base.MSSBase):
    def __init__(self, **kw):
      super().__init__(**kw)
      self.w = world
      self.count = 0
      self.w.note("screen", kw); self.w.opened(1)
    def _monitors_impl(self): self._monitors = [{"left": 0, "top": 0, "width": 4000, "height": 3000}] * 2
    def _cursor_impl(self): return None
    def _grab_impl(self, m):
      time.sleep(self.w.delay())
      if self.w.fail_at is not None and self.count >= self.w.fail_at: raise mss.exception.ScreenShotError("no screen")
      if not (m["width"] > 0 and m["height"] > 0): raise mss.exception.ScreenShotError("XGetImage() failed")
      px = screen_pixels(m["left"], m["top"], m["width"], m["height"], self.count, self.w.native_alpha)
      self.w.note("grab", dict(m), self.count, time.time()); self.count += 1
      return self.cls_image(bytearray(px.tobytes()), m)
    def close(self): self.w.opened(-1); self.w.note("screen-closed")
  mss.mss = mss.MSS = mss.factory.mss = Screen

# ---------------------------------------------------------------- camera
def camera_frame(size, n, solid):
  w, h = size
  px = np.empty((h, w, 3), np.uint8)
  px[..., 0] = (np.arange(w) * 3 % 251)[None, :] if not solid else 40
  px[..., 1] = (np.arange(h) * 5 % 241)[:, None] if not solid else 130
  px[..., 2] = n % 239
  return px

def _install_camera():
  import cv2
  class Capture:
    def __init__(self, index=None, *a, **kw):
      self.w, self.count = world, 0
      self.w.note("camera", index, a, kw)
      self.ok = self.w.fail_at != -1
      if self.ok: self.w.opened(1)
    def set(self, prop, value): self.w.note("camera-set", prop, value); return True
    def get(self, prop): return 0.0
    def isOpened(self): return self.ok
    def read(self):
      time.sleep(self.w.delay())
      if not self.ok or self.w.fail_at is not None and self.count >= self.w.fail_at: return False, None
      self.w.note("frame", self.count, time.time()); self.count += 1
      return True, camera_frame(self.w.size, self.count - 1, self.w.solid)
    def release(self):
      if self.ok: self.w.opened(-1)
      self.ok = False
      self.w.note("camera-released")
  cv2.VideoCapture = Capture

# ---------------------------------------------------------------- sound
SIZES = {"float32": 4, "int32": 4, "int24": 3, "int16": 2, "int8": 1, "uint8": 1}
def sound(pos, n):
  """n bytes of the recorded sound, from byte pos on."""
  return ((np.arange(pos, pos + n) * 7 + np.arange(pos, pos + n) // 251) % 256).astype(np.uint8).tobytes()

def _install_sound():
  m = types.ModuleType("sounddevice")
  class PortAudioError(Exception): pass
  class Base:
    kind = "?"
    def __init__(self, samplerate=None, blocksize=None, device=None, channels=None, dtype=None, **kw):
      if dtype not in SIZES: raise ValueError("Invalid data type: " + repr(dtype))
      if not channels or channels < 1 or not samplerate: raise PortAudioError("Invalid number of channels")
      self.w, self.frame, self.pos, self.running = world, SIZES[dtype] * channels, 0, False
      self.samplesize, self.channels = SIZES[dtype], channels
      self.w.note(self.kind, {"samplerate": samplerate, "blocksize": blocksize, "device": device, "channels": channels, "dtype": dtype})
      self.w.opened(1); self.closed = False
    def start(self): self.running = True
    def stop(self): self.running = False
    def close(self, ignore_errors=True):
      if not self.closed: self.w.opened(-1)
      self.closed, self.running = True, False
      self.w.note(self.kind + "-closed")
    def __enter__(self): self.start(); return self
    def __exit__(self, *a): self.stop(); self.close()
    def check(self):
      if not self.running: raise PortAudioError("Stream is stopped")
  class RawInputStream(Base):
    kind = "record"
    def read(self, frames):
      self.check()
      time.sleep(self.w.delay())
      if self.w.fail_at is not None and self.pos >= self.w.fail_at: raise PortAudioError("Device unavailable")
      n = frames * self.frame
      data = bytearray(sound(self.pos, n)); self.pos += n
      self.w.note("read", frames, self.pos, time.time())
      return memoryview(data), False
  class RawOutputStream(Base):
    kind = "play"
    def write(self, data):
      self.check()
      data = bytes(data)
      samples, rest = divmod(len(data), self.samplesize)
      if rest: raise ValueError("len(data) not divisible by samplesize")
      if samples % self.channels: raise ValueError("Number of samples not divisible by channels")
      time.sleep(self.w.delay())
      self.w.note("write", data)
      return False
  class Default: device = [1, 2]
  DEVICES = [{"name": f"dev{i}", "index": i, "max_input_channels": i % 3 and 2, "max_output_channels": (i + 1) % 3 and 2} for i in range(8)]
  m.RawInputStream, m.RawOutputStream, m.PortAudioError, m.default, m.query_devices, m.DEVICES = RawInputStream, RawOutputStream, PortAudioError, Default(), lambda *a, **k: [dict(d) for d in DEVICES], DEVICES
  sys.modules["sounddevice"] = m

# ---------------------------------------------------------------- models
class Tensor:
  def __init__(self, a): self.a = np.asarray(a)
  @property
  def shape(self): return self.a.shape
  def flatten(self): return Tensor(self.a.flatten())
  def reshape(self, *s): return Tensor(self.a.reshape(*s))
  def squeeze(self, *s): return Tensor(self.a.squeeze(*s))
  def cpu(self): return self
  def detach(self): return self
  def numpy(self): return self.a
  def abs(self): return Tensor(np.abs(self.a))
  def mean(self): return Tensor(self.a.mean())
  def max(self): return Tensor(self.a.max())
  def sum(self): return Tensor(self.a.sum())
  def item(self): return self.a.item()
  def tolist(self): return self.a.tolist()
  def _o(self, o): return o.a if isinstance(o, Tensor) else o
  def __mul__(self, o): return Tensor((self.a * self._o(o)).astype(self.a.dtype))
  __rmul__ = __mul__
  def __truediv__(self, o): return Tensor((self.a / self._o(o)).astype(self.a.dtype))
  def __add__(self, o): return Tensor((self.a + self._o(o)).astype(self.a.dtype))
  def __gt__(self, o): return bool(self.a > self._o(o))
  def __eq__(self, o): return bool((self.a == self._o(o)).all())
  def __bool__(self): return bool(self.a)
  def __float__(self): return float(self.a)
  def __len__(self): return len(self.a)
  def __getitem__(self, i): return Tensor(self.a[i])
  def __array__(self, dtype=None, copy=None): return self.a if dtype is None else self.a.astype(dtype)

def _module(name, **attrs):
  parts = name.split(".")
  for i in range(1, len(parts) + 1):
    n = ".".join(parts[:i])
    if n not in sys.modules:
      sys.modules[n] = types.ModuleType(n)
      sys.modules[n].__path__ = []
      if i > 1: setattr(sys.modules[".".join(parts[:i - 1])], parts[i - 1], sys.modules[n])
  for k, v in attrs.items(): setattr(sys.modules[name], k, v)

class Model:
  """What speechbrain's from_hparams gives; world.reply(call, ...) decides what the model says."""
  name = "?"
  def __init__(self, source): self.w, self.source = world, source
  @classmethod
  def from_hparams(cls, source, savedir=None, run_opts=None, **kw):
    world.note("load", cls.name, source, savedir, run_opts)
    return cls(source)

class Enhancement(Model):
  name = "enhance"
  def enhance_batch(self, noisy, lengths=None, *a):
    time.sleep(self.w.delay())
    self.w.note("enhance", noisy.a.copy(), None if lengths is None else lengths.tolist())
    return Tensor(self.w.reply(noisy.a) if self.w.reply else noisy.a)
class SpectralMaskEnhancement(Enhancement): pass
class WaveformEnhancement(Enhancement): pass

class StreamingASR(Model):
  name = "asr"
  def make_streaming_context(self, config): self.w.note("context", config.chunk_size, config.left_context_size); return ["context"]
  def transcribe_chunk(self, context, chunk, chunk_len=None):
    time.sleep(self.w.delay())
    assert context == ["context"]
    self.w.note("transcribe", chunk.a.copy())
    return [self.w.reply(chunk.a) if self.w.reply else '']
class DynChunkTrainConfig:
  def __init__(self, chunk_size, left_context_size=None): self.chunk_size, self.left_context_size = chunk_size, left_context_size

class FastSpeech2(Model):
  name = "tts"
  def encode_text(self, texts, pace=1.0, pitch_rate=1.0, energy_rate=1.0):
    time.sleep(self.w.delay())
    self.w.note("encode", list(texts), pace, pitch_rate, energy_rate)
    return ("mel", [self.w.reply(t) if self.w.reply else np.zeros(10, np.float32) for t in texts]), None, None, None
class HIFIGAN(Model):
  name = "vocoder"
  def decode_batch(self, mel, *a): return Tensor(np.stack(mel[1])[:, None, :])

class Llama:
  def __init__(self, model_path, *, n_gpu_layers=0, verbose=True, n_ctx=512, **kw):
    self.w, self.n = world, n_ctx or 4096
    self.w.note("llama", model_path, n_gpu_layers, n_ctx)
  def n_ctx(self): return self.n
  def create_chat_completion(self, messages, max_tokens=None, **kw):
    time.sleep(self.w.delay())
    prompt = sum(len(m["content"].split()) for m in messages)
    if prompt >= self.n: raise ValueError(f"Requested tokens ({prompt}) exceed context window of {self.n}")
    words = (self.w.reply(messages) if self.w.reply else "ok").split()
    words = words[:min(self.n - prompt, max_tokens or 10**9)]
    self.w.note("chat", [dict(m) for m in messages], max_tokens, " ".join(words))
    return {"choices": [{"message": {"role": "assistant", "content": " ".join(words)}, "finish_reason": "length" if prompt + len(words) == self.n else "stop"}],
      "usage": {"prompt_tokens": prompt, "completion_tokens": len(words), "total_tokens": prompt + len(words)}}

def _install_models():
  t = types.ModuleType("torch")
  t.Tensor, t.from_numpy, t.tensor = Tensor, Tensor, lambda v, **k: Tensor(np.array(v, np.float32))
  t.is_tensor = lambda v: isinstance(v, Tensor)
  sys.modules["torch"] = t
  _module("speechbrain.inference.enhancement", SpectralMaskEnhancement=SpectralMaskEnhancement, WaveformEnhancement=WaveformEnhancement)
  _module("speechbrain.inference.ASR", StreamingASR=StreamingASR)
  _module("speechbrain.inference.TTS", FastSpeech2=FastSpeech2)
  _module("speechbrain.inference.vocoders", HIFIGAN=HIFIGAN)
  _module("speechbrain.utils.dynamic_chunk_training", DynChunkTrainConfig=DynChunkTrainConfig)
  _module("llama_cpp", Llama=Llama, ChatCompletionRequestMessage=dict)

_install_mss(); _install_camera(); _install_sound(); _install_models()
