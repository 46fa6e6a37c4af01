HEAD = "import numpy as np, sys\nimport CommDspy as cdsp\n"
SIM = HEAD + """sys.path.insert(0, '.')
from example_simulation.simulation_parts import data_objects as d
from example_simulation.simulation_parts.simulation import Simulation
K = cdsp.ConstellationEnum
def sim(pre=1, post=1, nd=1, osr=4, phase=0, n=32, ffe=None, chan=(1.,)):
    lv = np.array([-1., 1.])
    fir = np.zeros(osr * (len(chan) - 1) + 1); fir[::osr] = chan
    return Simulation(d.FullLinkData(d.PrbsData(cdsp.PrbsEnum.PRBS9, n, np.ones(9, int)), d.CodingData(1, K.NRZ, n), d.MappingData(K.NRZ, lv, 128, 1),
        d.ChannelData('rect', 1, 'isi_awgn', fir_coefs=fir, osr=osr, snr=None), d.CtleData([1e9], [1e9], 0, 5e9, osr), d.AdcData(12, 6, 's', osr, 1, phase),
        d.FfeDfeData(pre, post, nd, ffe, None, lv)))
"""
RX = "example_simulation/simulation_parts/receiver.py"
SM = "example_simulation/simulation_parts/simulation.py"
BUGS = [
dict(id="C33-a", property="C33", file=RX,
  edits=[("                self.phase     = (self.phase + mm_step) % self.max_pase\n", "                self.phase     = min(max(self.phase + mm_step, 0), self.max_pase - 1)\n")],
  demo=SIM+"""
s = sim(chan=(1., .4))
s.Link(); s.Link.start_convergence(); s.Link.Rx.lms_lr = 0
prev, ok = s.Link.Rx.phase, False
import CommDspy.rx as r
orig = r.mueller_muller_step
r.mueller_muller_step = lambda *a, **k: -1
s.Link()
sys.exit(0 if s.Link.Rx.phase == 3 else 1)
""", needs="a step across the symbol boundary", breaks="the phase sticks at the ends instead of wrapping"),
dict(id="C33-b", property="C33", file=SM,
  edits=[("        self.Memory.lms_ffe_vecs.append(self.Link.Rx.ffe_dfe.ffe_vec.copy())\n", "        self.Memory.lms_ffe_vecs.append(self.Link.Rx.ffe_dfe.ffe_vec[self.Link.Rx.lms_ffe_idx].copy())\n")],
  demo=SIM+"""
f = np.array([.1, 1., .2])
s = sim(ffe=f)
s.Link(); s.gather_memory()
sys.exit(0 if np.array_equal(s.Memory.lms_ffe_vecs[0], f) else 1)
""", needs="an equalizer with precursor taps that differ", breaks="the taps are recorded in the wrong order"),
dict(id="C33-c", property="C33", file=RX,
  edits=[("                adc_vec = np.concatenate([self.adc_out_last[-1 * delay:], self.adc_out[:-1 * delay]])\n", "                adc_vec = np.concatenate([self.adc_out[-1 * delay:], self.adc_out[:-1 * delay]])\n")],
  demo=SIM+"""
s = sim(pre=3, post=0, phase=2, chan=(1., .2))
seen = []
import CommDspy.rx as r
orig = r.ddlms_grad
def spy(x, *a, **k):
    seen.append(np.array(x)); return orig(x, *a, **k)
r.ddlms_grad = spy
s.Link(); last = s.Link.Rx.adc_out.copy(); s.Link.start_convergence(); s.Link()
sys.exit(0 if np.array_equal(seen[0][:3], last[-3:]) else 1)
""", needs="precursor taps: the first samples of a chunk", breaks="the gradients pair the first outputs with inputs of the wrong chunk"),
dict(id="C33-d", property="C33", file=SM,
  edits=[("        self.Memory.cdr_phase_vec.append(self.Link.Rx.phase)\n", "        self.Memory.cdr_phase_vec.append(self.Link.Rx.phase if self.Link.Rx.converge_cdr else self.Memory.cdr_phase_vec[-1] if self.Memory.cdr_phase_vec else self.Link.Rx.phase)\n")],
  demo=SIM+"""
s = sim()
s.Link(); s.gather_memory()
s.Link.Rx.phase = s.Link.Rx.adc.phase = 2
s.Link(); s.gather_memory()
sys.exit(0 if s.Memory.cdr_phase_vec == [0, 2] else 1)
""", needs="a phase that changed since the last record although the clock loop is closed", breaks="the recorded phase is stale"),
dict(id="C33-e", property="C33", file="example_simulation/analyzer/analyzer_classes.py",
  edits=[("        self.rx_slicer_in_chunks    = []\n        self.rx_slicer_out_chunks   = []\n        self.rx_demapped_chunks     = []\n        self.rx_decoded_chunks      = []\n\n        self.cdr_phase_vec = []\n        self.lms_mse_vec   = []\n        self.lms_ffe_vecs  = []\n        self.lms_dfe_vecs  = []\n",
          "        self.rx_slicer_in_chunks    = []\n        self.rx_slicer_out_chunks   = []\n        self.rx_demapped_chunks     = []\n        self.rx_decoded_chunks      = []\n\n        self.cdr_phase_vec = []\n        self.lms_mse_vec   = []\n        self.lms_ffe_vecs  = self.lms_dfe_vecs = []\n")],
  demo=SIM+"""
s = sim()
s.Link(); s.Memory.reset(); s.gather_memory()
sys.exit(0 if len(s.Memory.lms_ffe_vecs) == 1 and len(s.Memory.lms_dfe_vecs) == 1 else 1)
""", needs="recording after a reset", breaks="forward and feedback taps land in one list"),
]
