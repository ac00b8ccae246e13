"""Runtime monitors for the PyTorch-Wavelet-Toolbox."""
