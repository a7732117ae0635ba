#!/bin/bash
# builds the MIR driver and the facts of the current tree once (checks build them again when missing)
cd "$(dirname "$0")" && python3 -m engine.facts
