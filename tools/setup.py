#!/usr/bin/env python3
"""Nothing has to be installed: makes sure that the verifier answers."""
import subprocess, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
e = check.env('epoll')
p = subprocess.run(['cargo', 'kani', '--version'], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
print(p.stdout.strip())
sys.exit(p.returncode)
