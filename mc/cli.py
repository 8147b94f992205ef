"""Runs the real command line in process (class-level state is isolated by the
forked workers) inside a scratch directory."""
import builtins
import os

import h5py
import numpy as np


class Run(object):
    def __init__(self, code, output, exc):
        self.code, self.output, self.exc = code, output, exc

    @property
    def crashed(self):
        return self.exc is not None and not isinstance(self.exc, SystemExit)

    @property
    def error(self):
        """the big error banner was printed (that is how the commands refuse)"""
        return '|    __)_  |' in self.output or self.code == 2

    def why(self):
        import traceback
        if self.exc is None:
            return ''
        return ''.join(traceback.format_exception(type(self.exc), self.exc, self.exc.__traceback__))[-1500:]


def quantas(args, answers=()):
    """args: list of strings; answers: lines typed by the user."""
    import click
    from click.testing import CliRunner
    from quantas.cmdline.commands.cmd_quantas import cli
    lines = [str(a) for a in answers]
    text = ''.join(a + '\n' for a in lines)
    res = CliRunner().invoke(cli, [str(a) for a in args], input=text)
    return Run(res.exit_code, res.output, res.exception)


def h5(path):
    """{name: (array, unit, desc)}, info"""
    out = {}
    with h5py.File(path, 'r') as f:
        info = f.attrs.get('info', '')

        def walk(name, obj):
            if isinstance(obj, h5py.Dataset):
                out[name] = (np.array(obj[()]), obj.attrs.get('unit'), obj.attrs.get('desc'))
        f.visititems(walk)
    return out, info


def listing(d='.'):
    """{relative path: content bytes} of a directory tree"""
    out = {}
    for root, dirs, files in os.walk(d):
        for fn in files:
            p = os.path.join(root, fn)
            with open(p, 'rb') as f:
                out[os.path.relpath(p, d)] = f.read()
    return out
