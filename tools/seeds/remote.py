D = "demo/demo_lib/demo_lib/fpga.py"
HEAD = """import stubs, json, threading, types
import numpy as np
import demo_lib.fpga as f
NS = types.SimpleNamespace
class Broker:
    def __init__(self): self.cb, self.sent, self.replies = {}, [], []
    def subscribe(self, t, qos=0): pass
    def message_callback_add(self, t, g): self.cb[t] = g
    def reply(self, v): self.cb['loss'](self, None, NS(topic='loss', payload=json.dumps({'loss': v}).encode()))
    def publish(self, t, p=None, qos=0, retain=False):
        self.sent.append((t, json.loads(p)))
        r = self.replies.pop(0) if self.replies else None
        if isinstance(r, str): threading.Timer(.05, self.reply, (float(r),)).start()
        elif r is not None: self.reply(r)
def net(k): return NS(schema={'network': [k]})
def fails(g):
    try: r = g()
    except Exception: return
    raise SystemExit(f'no reply, yet {r}')
b = Broker()
"""


def S(cid, edits, needs, breaks, body):
    return dict(id=cid, property="C33", file=D, edits=edits, needs=needs, what_it_breaks=breaks, demo=HEAD + body, stubs=True)


W = "        was_timeout = not self._result_event.wait(timeout=self._timeout)\n\n        if was_timeout:\n"
SEEDS = [
 S("c33-stale-flag", [("        self._result_event.clear()\n        json_net", "        json_net"), ("        return self._loss\n", "        self._result_event.clear()\n        return self._loss\n")],
   "a loss that arrives after its evaluation timed out, then another evaluation", "the late loss of the earlier network is returned for the new one",
   "l = f.LossFPGA(b, 'loss', 'm', timeout=.2)\nfails(lambda: l(net(1)))\nb.reply(5.)\nfails(lambda: l(net(2)))\nb.replies = [3.]\nassert l(net(3)) == 3.\n"),
 S("c33-clear-late", [("        self._result_event.clear()\n        json_net", "        json_net"), (W, "        self._result_event.clear()\n" + W)],
   "an accelerator that replies while the network is still being published", "the reply is thrown away and the evaluation times out",
   "l = f.LossFPGA(b, 'loss', 'm', timeout=.5)\nb.replies = ['4']\nassert l(net(1)) == 4.\nb.replies = [5.]\nassert l(net(2)) == 5.\n"),
 S("c33-set-first", [("        self._loss = float(res_dict[\"loss\"])\n        self._result_event.set()\n", "        self._result_event.set()\n        self._loss = float(res_dict[\"loss\"])\n")],
   "the waiting thread runs between the two statements of the callback", "the loss of the evaluation before is returned",
   "import time\nclass E(threading.Event):\n    def set(self):\n        super().set()\n        time.sleep(.1)\nf.threading = NS(Event=E)\nl = f.LossFPGA(b, 'loss', 'm')\nb.replies = ['2']\nassert l(net(1)) == 2., 'stale'\n"),
 S("c33-timeout-last", [("        if was_timeout:\n            raise RuntimeError(\"Timeout, no result received\")\n", "        if was_timeout and not self._loss:\n            raise RuntimeError(\"Timeout, no result received\")\n")],
   "a reply that never arrives after an earlier one did", "the earlier loss is returned for the new network",
   "l = f.LossFPGA(b, 'loss', 'm', timeout=.2)\nb.replies = [2.]\nassert l(net(1)) == 2.\nfails(lambda: l(net(2)))\n"),
 S("c33-resend", [("        was_timeout = not self._result_event.wait(timeout=self._timeout)\n\n        if was_timeout:\n",
                   "        was_timeout = not self._result_event.wait(timeout=self._timeout / 2)\n        if was_timeout:\n            # the message may have been lost\n            self._client.publish(self._model_topic, json_net, qos=self._qos)\n            was_timeout = not self._result_event.wait(timeout=self._timeout / 2)\n\n        if was_timeout:\n")],
   "an accelerator that needs more than half of the time-out", "the network is evaluated twice; the second reply is taken for the next network's",
   "class E(threading.Event):\n    def wait(self, timeout=None):\n        return super().wait(.2 * timeout)\nl = f.LossFPGA(b, 'loss', 'm', timeout=1)\nfails(lambda: l(net(1)))\nassert len(b.sent) == 1, b.sent\n"),
 S("c33-same-network", [("        self._result_event.clear()\n        json_net = json.dumps(net.schema)\n", "        json_net = json.dumps(net.schema)\n        if json_net == self._last:\n            return self._loss\n        self._last = json_net\n        self._result_event.clear()\n"),
                        ("        self._loss: float = 0\n", "        self._loss: float = 0\n        self._last: str | None = None\n")],
   "the same network evaluated again after a time-out", "the loss of another network, or none at all, is returned as its loss",
   "l = f.LossFPGA(b, 'loss', 'm', timeout=.2)\nb.replies = [2.]\nassert l(net(1)) == 2.\nfails(lambda: l(net(2)))\nb.replies = [7.]\nassert l(net(2)) == 7.\n"),
 S("c33-loss-float32", [("        self._loss = float(res_dict[\"loss\"])\n", "        self._loss = round(float(res_dict[\"loss\"]), 6)\n")],
   "a loss below one millionth", "small differences between losses vanish",
   "l = f.LossFPGA(b, 'loss', 'm')\nb.replies = [3e-7, 4e-7]\nassert l(net(1)) == 3e-7 and l(net(2)) == 4e-7\n"),
 S("c33-output-squeezed", [("        return {\"input\": self.input.as_kv(), \"output\": self.output.as_kv()}\n", "        output = self.output.as_kv()\n        if output[\"shape\"][-1] == 1:  # one target per sample\n            output[\"shape\"] = output[\"shape\"][:1]\n        return {\"input\": self.input.as_kv(), \"output\": output}\n")],
   "one target per sample", "the targets' description loses its second dimension",
   "d = json.loads(f.InputOutput.from_numpy('s', np.ones((3, 2)), np.arange(3.)).as_json())\nassert d['output']['shape'] == [3, 1], d\nd = json.loads(f.InputOutput.from_numpy('s', np.ones((3, 2)), np.ones((3, 2))).as_json())\nassert d['output']['shape'] == [3, 2]\n"),
 S("c33-fortran", [("        flattened: list[E] = batch.flatten().tolist()\n", "        flattened: list[E] = batch.flatten(order=\"K\").tolist()\n")],
   "an input array that is not stored row by row (a transpose, a column-major array)", "the values are exported in memory order, not sample by sample",
   "x = np.arange(6.).reshape(2, 3).T\nd = json.loads(f.InputOutput.from_numpy('s', x, np.ones((3, 1))).as_json())['input']\nassert d['shape'] == [3, 2] and d['tensor'] == [0, 3, 1, 4, 2, 5], d\n"),
]
