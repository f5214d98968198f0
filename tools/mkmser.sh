#!/bin/bash
# mkmser.sh ID PROPERTY NEEDS BREAKS: plants the present change of /repo with the extraction demo
cp /verif/tools/demo/mser_demo.cpp /tmp/w/demo.cpp
python3 /verif/tools/mkseed.py "$@"
cp /verif/tools/demo/mser_demo.sh /verif/seeded/$1/demo.sh
cp /verif/harness/h.h /verif/harness/mser_ref.h /verif/seeded/$1/
