#!/usr/bin/env python3
# e2eseq.py CHECK CLIENT DIR [DEPTH [ALPHABET]]: every sequence of DEPTH steps, in the simulated world and on the real
# client in namespaces; what the two print and leave on disk must be the same.
import sys, os, subprocess, itertools, concurrent.futures
check, client, tmp = sys.argv[1:4]
depth = int(sys.argv[4]) if len(sys.argv) > 4 else 2
which = sys.argv[5] if len(sys.argv) > 5 else 'local'
N = 8
here = os.path.dirname(os.path.abspath(__file__))
F, G, H = ('file A f 3000 4', 'file A g 5000000 2', 'file B h 9000000 7')
cat = '.flu-network/catalogue'
A = {
 'local': ['run A share f', 'run A share same', 'run A share g', 'run A share ./empty', 'run A share /home/u/work', 'run A share missing',
  'sorted A list', 'sorted A clean', 'kill A\nboot A', 'second A', 'rm A work/f', 'patch A work/f x', 'file A f 1000 4', 'rm A work/f\nmkdir A work/f', F, 'rm A work/g',
  'sorted A list 10.37.91.1', 'sorted A list 127.0.0.1 $f', 'run A get $f', 'off A\nsorted A list 10.37.91.1\non A', f'rm A {cat}/index.json', f'rm A {cat}', 'kill A\n'+f'rm A {cat}/index.json'+'\nboot A',
  f'text A {cat}/index.json '+'{}', f'text A {cat}/index.json rubbish', 'rm A .flu-network', 'rm A .flu-network\ntext A .flu-network x', f'rm A {cat}/$f', f'text A {cat}/$f xyz'],
 'remote': ['run A get $h\nsleep 8000', 'run A get $h', 'sleep 2500', 'kill A\nboot A', 'kill B\nboot B', 'off A', 'on A', 'off B\nsleep 1000\non B', 'sorted A chims', 'sorted B chims $h', 'rm A .flu-network/downloads/h', 'rm A .flu-network/downloads', 'sorted A clean',
  'rm B work/h\nsleep 1000\n'+H, 'patch B work/h x', H, 'sorted B list 10.37.91.1 $h', 'sorted A list 10.37.91.2', 'run B clean', 'run B share h'],
}[which]
if which == 'local':
    head = 'hosts 1\n'
    pre = ['reset A', F, 'file A same 3000 4', G, 'file A empty 0 3', 'boot A']
    post = ['sorted A list', 'tree A', 'alive A']
else:
    head = 'hosts 2\n'
    pre = ['reset A', 'reset B', 'on A', 'on B', H, 'boot A', 'boot B', 'run B share h']
    post = ['sleep 9000', 'sorted A list', 'on A', 'sorted B list', 'tree A', 'alive A', 'alive B']
seqs = list(itertools.product(A, repeat=depth))
def run(i):
    name = f'{tmp}/s{i}'
    with open(name + '.txt', 'w') as f:
        f.write(head)
        for s in seqs[i::N]: f.write('\n'.join(pre + list(s) + post) + '\n')
    a = subprocess.Popen([check, '-script', name + '.txt'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    with open(name + '.real', 'w') as f: subprocess.run([sys.executable, here + '/e2e.py', client, name + '.txt'], stdout=f, stderr=subprocess.STDOUT)
    with open(name + '.sim', 'wb') as f: f.write(a.communicate()[0])
    split = lambda p: open(p, errors='replace').read().split('> reset A\n')[1:]
    real, sim = split(name + '.real'), split(name + '.sim')
    return [(r, x) for r, x in itertools.zip_longest(real, sim, fillvalue='nothing\n') if r != x], len(real)
with concurrent.futures.ThreadPoolExecutor(N) as ex: res = list(ex.map(run, range(N)))
bad = [x for b, _ in res for x in b]
for r, x in bad[:6]:
    print('--- real:\n' + r + '--- simulated:\n' + x)
print(f'{which}: {sum(n for _, n in res)} of {len(seqs)} sequences of {depth} steps of {len(A)}, {len(bad)} differ')
sys.exit(bool(bad))
