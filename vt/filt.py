"""Reference density filter, projection and permittivity map (dense, written from their definition)."""
import numpy as np


def filter_matrix(N, design, NPML, R):
    Nx, Ny = N
    n = Nx*Ny
    W = np.eye(n)
    if R is None:
        return W
    per = [NPML[0] == 0, NPML[1] == 0]
    lo = [R+NPML[a]+1 for a in (0, 1)]
    hi = [N[a]-R-1-NPML[a] for a in (0, 1)]
    offs = [(di, dj, R-np.hypot(di, dj)) for di in range(-R, R+1) for dj in range(-R, R+1) if np.hypot(di, dj) < R]
    for i in range(Nx):
        if not per[0] and not lo[0] <= i < hi[0]:
            continue
        for j in range(Ny):
            if not per[1] and not lo[1] <= j < hi[1]:
                continue
            if design[i, j] != 1:
                continue
            row = np.zeros((Nx, Ny))
            for di, dj, w in offs:
                row[(i+di) % Nx, (j+dj) % Ny] += w
            W[i*Ny+j] = (row/row.sum()).ravel()
    return W


def project(r, eta, beta):
    # (tanh(x)-tanh(y) written so that tiny strengths keep their digits)
    num = np.tanh(beta*eta)+np.tanh(beta*(r-eta))
    den = np.tanh(beta*eta)+np.tanh(beta*(1-eta))
    return num/den


class Map:
    """density -> permittivity of an optimization"""

    def __init__(self, N, design, NPML, eps_m, R=None, eta=.5, beta=1e-9):
        self.W = filter_matrix(N, design, NPML, R)
        self.N, self.design, self.eps_m, self.eta, self.beta = N, np.asarray(design), eps_m, eta, beta

    def eps(self, rho):
        f = (self.W@np.asarray(rho).ravel()).reshape(self.N)
        e = 1+(self.eps_m-1)*project(f, self.eta, self.beta)
        return np.where(self.design == 1, e, 1+(self.eps_m-1)*np.asarray(rho))
