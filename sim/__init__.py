"Deterministic simulation of dash-live-source-simulator."
