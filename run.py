#!/usr/bin/env python3
"""run.py <property id | all> [--tier quick|thorough]: decide one property of /repo's current tree."""
import os
import sys
import threading

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'an'))
threading.stack_size(512 << 20)
rc = [2]


def go():
    import base
    import props
    rc[0] = base.main(props.PROPS, sys.argv[1:])


t = threading.Thread(target=go)
t.start()
t.join()
sys.stdout.flush()
sys.exit(rc[0])
