"""A stand-in for Keras (which has no back end here): networks which record what they are given, and are linear."""
import json
import os
import sys
import types

import numpy

CREATED = []


def weight(j, k):
    return ((j * 7 + k * 5) % 13 - 6) / 16


class Network:
    """Outputs a fixed linear function of the features."""

    def __init__(self, outputs=None):
        self.layers, self.compiled, self.fits, self.predictions = [], None, [], []
        self.outputs = outputs
        self.fail_save = False
        CREATED.append(self)

    def add(self, layer):
        self.layers.append(layer)

    def compile(self, **kwargs):
        self.compiled = kwargs

    def fit(self, x, y, **kwargs):
        self.fits.append((numpy.array(x), numpy.array(y), kwargs))
        self.outputs = y.shape[1]

    def __call__(self, window):
        flat = [v for row in window for v in row]
        return [0.25 * (k + 1) + sum(weight(j, k) * v for j, v in enumerate(flat)) for k in range(self.outputs)]

    def predict(self, x, **kwargs):
        x = numpy.array(x)
        self.predictions.append(x)
        return numpy.array([self(window) for window in x])

    def save(self, path):
        if self.fail_save:
            raise OSError('no space left')
        os.makedirs(path)
        with open(path + '/network.json', 'w') as f:
            json.dump({'outputs': self.outputs, 'fits': len(self.fits)}, f)


class Layer:
    def __init__(self, *args, **kwargs):
        self.args, self.kwargs = args, kwargs


class LSTM(Layer):
    pass


class Dense(Layer):
    pass


def load_model(path):
    with open(path + '/network.json') as f:
        saved = json.load(f)
    return Network(saved['outputs'])


def install():
    keras = types.ModuleType('keras')
    keras.models = types.ModuleType('keras.models')
    keras.layers = types.ModuleType('keras.layers')
    keras.models.Sequential, keras.models.load_model = Network, load_model
    keras.layers.LSTM, keras.layers.Dense = LSTM, Dense
    sys.modules['keras'], sys.modules['keras.models'], sys.modules['keras.layers'] = keras, keras.models, keras.layers
