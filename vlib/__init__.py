"""Runtime-monitoring harness for shepherd-datalib (see /verif/DESIGN.md)."""
