#!/bin/bash
# builds the front end and extracts the AST of the current tree (cached by content; checks redo what is stale)
cd "$(dirname "$0")" && exec python3-vt -c "
import sys; sys.path.insert(0,'vc')
import prog; p = prog.Program(prog.CORE + prog.EXT + prog.XML); print(len(p.fns), 'functions')"
