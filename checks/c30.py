"""C30: folders of IF spectra are analysed completely; result folders are laid out as documented."""
import os
from checks.figcommon import Plt, Scratch, same
from symx import tokens as _t
EXPLANATION = ('plot_if_spectrum executed symbolically on a scratch folder of response files whose numbers are arbitrary (every number in a file is a token that parses to a symbolic real), with the drawing library replaced by a '
               'recorder: every spectrum drawn and saved is compared with the noise temperature of that file; initialize_dir run on scratch folders.')
BOUNDS = '1-3 response files of 10 samples (4 of them with symbolic powers) among other files, with and without a figure folder; folder names with and without a trailing slash, new and existing'
OUTSIDE = 'pixels, axis limits; the summary of smoothed spectra; malformed response files'
OPTS = dict(max_paths=200, samples=1, max_samples=4, tokens=_t.text())
BUDGET = dict(quick=150, thorough=400)
FOLDERS = ['dciv', 'iv-curves', 'iv-if', 'impedance', 'impedance-sim', 'if-noise', 'noise-temp', 'if-spectrum', 'overall-results', 'csv']


def cases(tier):
    out = [('one', dict(what='spectra', files=['f230_comb_a'])),
           ('two', dict(what='spectra', files=['f230.5_comb_first', 'f241_comb_second'])),
           ('two_nofolder', dict(what='spectra', files=['f230_comb_a', 'f345_comb_b'], save=False)),
           ('three', dict(what='spectra', files=['F1040_x_comb', 'f230_comb_b', 'q95.25_comb.v2'], order='table')),
           ('slash', dict(what='spectra', files=['f230_comb_a'], slash='/')),
           ('dirs', dict(what='dirs'))]
    if tier == 'thorough':
        out.append(('four', dict(what='spectra', files=['f%d_comb_%d' % (200 + k, k) for k in range(4)])))
    return out


def run(c, what, **k):
    globals()[what](c, c.np, **k)


def spectra(c, np, files, save=True, slash='', order=None):
    m = c.mod('qmix.exp.exp_data')
    plt = Plt(c)
    c.patch_if(m, 'plt', plt)
    conv = c.mod('qmix.mathfn.filters').gauss_conv
    resp = c.mod('qmix.exp.if_response').if_response
    n = 10
    data = {}
    with Scratch() as d:
        src, dst = os.path.join(d, 'data'), os.path.join(d, 'out')
        os.mkdir(src)
        os.mkdir(dst)
        for k, f in enumerate(files):
            fr = [0.5 + i * (1 + k) for i in range(n)]
            cold = [c.real('c%d_%d' % (k, i), lo=-26, hi=-25) if i in (2, 5) else -25. + 0.125 * i for i in range(n)]
            hot = [c.real('h%d_%d' % (k, i), lo=-23, hi=-21) if i in (2, 7) else -23.5 + 0.25 * i + 0.5 * k for i in range(n)]
            data[f] = np.array([fr, hot, cold]).T
            with open(os.path.join(src, f + '.dat'), 'w') as h:
                for r in zip(fr, hot, cold):
                    h.write('\t'.join('{}'.format(x) for x in r) + '\n')
        for f in ('f230_if.dat', 'comb.txt', 'notes'):
            with open(os.path.join(src, f), 'w') as h:
                h.write('nothing to see here\n')
        m.plot_if_spectrum(src + slash, (dst + slash) if save else None)
    exp = {f: resp(x) for f, x in data.items()}
    if not save:
        c.check('nothing is saved without a folder', not any(f.saved for f in plt.figs))
        shown = [l for f in plt.figs for l in f.lines()]
        for f, e in exp.items():
            hit = [l for l in shown if l.label == label(f) and len(l.x) == n]
            c.check('spectrum is shown', len(hit) > 0)
        return
    out = {}
    for f in plt.figs:
        for name, upto in f.saved:
            c.check('every file is written once', name not in out)
            c.check('figures go to the folder', os.path.dirname(str(name)) == os.path.join(d, 'out'))
            out[os.path.basename(str(name))] = [l for ax, k in upto for l in ax.lines[:k]]
    for f, e in exp.items():
        for end in ('.png', '2.png'):
            c.check('figure of every spectrum', f + end in out)
            ls = out.get(f + end, [])
            c.check('measured and smoothed spectrum', len(ls) == 2)
            if len(ls) == 2:
                same(c, 'noise temperature of the file', list(ls[0].x) + list(ls[0].y), list(e[0]) + list(e[1]))
                same(c, 'smoothed noise temperature', list(ls[1].x) + list(ls[1].y), list(e[0]) + list(conv(e[1], sigma=1)))
                c.check('labelled with the LO frequency', ls[1].label == label(f))
    for name in ('if_spectra.png', 'if_spectra2.png'):
        c.check('summary', name in out)
        ls = out.get(name, [])
        c.check('one curve for every file', sorted(str(l.label) for l in ls) == sorted(label(f) for f in files))
        for f, e in exp.items():
            for l in [l for l in ls if l.label == label(f)]:
                same(c, 'summary curve', list(l.x) + list(l.y), list(e[0]) + list(e[1]))


def label(f):
    return f.split('_')[0][1:] + ' GHz'


def dirs(c, np):
    m = c.mod('qmix.exp.exp_data')
    for name in ('g', 'g/', 'a/b', 'a/b/', 'old', 'old/'):
        with Scratch() as d:
            if name.startswith('old'):
                os.makedirs(os.path.join(d, 'old', 'csv'))
                with open(os.path.join(d, 'old', 'csv', 'keep'), 'w') as h:
                    h.write('kept')
            for _ in range(2):
                c.capture(lambda: m.initialize_dir(os.path.join(d, name)))
                p = os.path.join(d, name.rstrip('/'))
                c.check('figure folder exists', os.path.isdir(p))
                c.check('sub-folders', sorted(os.listdir(p)) == sorted(FOLDERS) if os.path.isdir(p) else False)
                c.check('nothing beside the folder', os.listdir(d) == [name.split('/')[0]])
                if name.startswith('old'):
                    k = os.path.join(p, 'csv', 'keep')
                    c.check('contents are kept', os.path.exists(k) and open(k).read() == 'kept')
