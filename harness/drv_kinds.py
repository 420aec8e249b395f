KINDS = ["uniform", "ones", "dirichlet", "logs", "zeros", "onehot", "ends0", "tenths", "ties", "big", "scaled", "resampled"]
