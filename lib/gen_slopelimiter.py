"""Scenarios for SlopeLimiter.tla."""

MESHES = [
    {'cells': [2, 2], 'quad': False, 'layers': 0, 'diag': 'left', 'lx': '2', 'ly': '1'},
    {'cells': [3, 2], 'quad': False, 'layers': 0, 'diag': 'crossed', 'lx': '3', 'ly': '1'},
    {'cells': [1, 4], 'quad': False, 'layers': 0, 'diag': 'right', 'lx': '1', 'ly': '4'},
    {'cells': [3, 3], 'quad': True, 'layers': 0, 'diag': None, 'lx': '3', 'ly': '3'},
    {'cells': [4, 1], 'quad': True, 'layers': 0, 'diag': None, 'lx': '2', 'ly': '1'},
    {'cells': [2, 1], 'quad': False, 'layers': 3, 'diag': 'left', 'lx': '2', 'ly': '1'},
    {'cells': [1, 1], 'quad': False, 'layers': 2, 'diag': 'right', 'lx': '1', 'ly': '1'},
    {'cells': [2, 2], 'quad': False, 'layers': 1, 'diag': 'left', 'lx': '2', 'ly': '2'},
]


def scenarios(rng, n):
    out = []
    for k in range(n):
        i = k % len(MESHES)
        m = MESHES[i]
        moving = rng.random() < 0.6
        steps = []
        for q in range(rng.randint(2, 5)):
            if moving and q and rng.random() < 0.3:
                steps.append('move')
            steps.append(rng.choice(['random', 'random', 'step', 'small', 'small', 'constant', 'again']))
        out.append({'cfg': {'kind': 'prism' if m['layers'] else 'quad' if m['quad'] else 'tri'}, 'mesh': m,
                    'moving': moving, 'deform0': rng.random() < 0.6, 'vector': rng.random() < 0.25 and not (m['quad'] and False),
                    'steps': steps, 'seed': rng.randint(0, 10**6), 'group': str(m), 'setup': 6})
    return out
