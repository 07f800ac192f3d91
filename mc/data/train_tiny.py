import ufal.udpipe as u, sys
text=''
for k in range(60):
    text+='''# newdoc id = d%d
# sent_id = s%d
# text = John saw zum dog.
1\tJohn\tJohn\tPROPN\tN\t_\t2\tnsubj\t_\t_
2\tsaw\tsee\tVERB\tV\tTense=Past\t0\troot\t_\t_
3-4\tzum\t_\t_\t_\t_\t_\t_\t_\t_
3\tzu\tzu\tADP\tP\t_\t5\tcase\t_\t_
4\tdem\tder\tDET\tD\t_\t5\tdet\t_\t_
5\tdog\tdog\tNOUN\tN\t_\t2\tobl\t_\tSpaceAfter=No
6\t.\t.\tPUNCT\tP\t_\t2\tpunct\t_\t_

# text = A cat sat.
1\tA\ta\tDET\tD\t_\t2\tdet\t_\t_
2\tcat\tcat\tNOUN\tN\t_\t3\tnsubj\t_\t_
3\tsat\tsit\tVERB\tV\tTense=Past\t0\troot\t_\tSpaceAfter=No
4\t.\t.\tPUNCT\tP\t_\t3\tpunct\t_\t_

'''%(k,k)
r=u.InputFormat.newConlluInputFormat(); r.setText(text)
S=u.Sentences()
err=u.ProcessingError()
while True:
    s=u.Sentence()
    if not r.nextSentence(s,err): break
    S.push_back(s)
e=u.ProcessingError()
import time; t=time.time()
m=u.Trainer.train('morphodita_parsito',S,S,'epochs=3;dimension=16','iterations=2;provide_xpostag=1;provide_lemma=1','iterations=2;embedding_form=4;embedding_upostag=4;hidden_layer=8;transition_system=projective',e)
print(e.occurred(),e.message,len(m),time.time()-t)
open('m.udpipe','wb').write(m.encode('utf-8','surrogateescape') if isinstance(m,str) else m)
