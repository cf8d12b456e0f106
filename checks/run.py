#!/usr/bin/env python3
"""run.py <property id> [quick|thorough]"""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, '..', 'lib'), HERE]
if len(sys.argv) > 2:
    os.environ['VERIF_TIER'] = sys.argv[2]
import check  # noqa: E402

WHERE = {'C19': 'tls_checks', 'C21': 'res_checks', 'C22': 'ext_checks', 'C18': 'config_checks', 'C14': 'deflate_checks', 'C13': 'timeout_checks', 'C17': 'limit_checks', 'C20': 'frame_checks', 'C15': 'utf8_checks', 'C08': 'ring_checks', 'C09': 'pool_checks', 'C01': 'conn_checks', 'C02': 'conn_checks', 'C03': 'conn_checks', 'C04': 'conn_checks', 'C05': 'http_checks', 'C06': 'http_checks',
         'C07': 'server_checks', 'C10': 'server_checks', 'C11': 'server_checks', 'C12': 'server_checks', 'C16': 'server_checks'}
pid = sys.argv[1]
check.main(pid, getattr(importlib.import_module(WHERE[pid]), pid.lower()))
