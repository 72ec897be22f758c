import sys; sys.path.insert(0,'/verif/sa')
import cProfile,pstats,threading
from facts import Facts
import ai
F=Facts('/verif/.build/d.json')
A=ai.AI(F); 
k=sys.argv[1]
pr=cProfile.Profile(); pr.enable()
import signal
def h(*a): raise KeyboardInterrupt
signal.signal(signal.SIGALRM,h); signal.alarm(40)
try: A.run_body(k,[('arg',i) for i in range(F.bodies[k]['argc'])],ai.St())
except (KeyboardInterrupt,ai.TooBig) as e: print('stopped',type(e),e, A.trace())
signal.alarm(0)
pr.disable(); 
print('steps',A.steps,'loops',len(A.loops))
from collections import Counter
print(Counter(L.name for L in A.loops.values()).most_common(12))
pstats.Stats(pr).sort_stats('tottime').print_stats(14)
