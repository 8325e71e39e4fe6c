"""The properties, and how each is decided"""
import json, os, re
from core import *
import effects, codec, tables, pyapi

CHECKS = {
    "P01": codec.decoder_safety,
    "P02": codec.encoder_safety,
    "P03": codec.bits_confined,
    "P04": codec.sizes,
    "P05": effects.independence,
    "P06": codec.setup_static,
    "P07": codec.refused,
    "P08": codec.loss_outcome,
    "P09": codec.pcm_conversion,
    "P10": codec.agreement,
    "P11": tables.tables,
    "P12": codec.lossless,
    "P13": pyapi.python_interface,
    "P14": codec.cpp_interface,
    "P15": codec.tools,
    "P16": codec.determinate,
}
