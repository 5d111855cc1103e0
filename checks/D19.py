import sharing_io
import ioclient
RULE = 'reconstruction inverts splitting: evaluating every io class on a symbolic tensor element, the shares of every party sum (xor) back to it, have the declared type and size, agree between the parties that hold the same share, and leave the secret undetermined by what one party holds'
EXPLAIN = """The functions that split a value into shares, put shares together, look at one component of a share, choose the protocol's io
object, and exchange variables between co-located parties are evaluated from their syntax tree over an abstract tensor with one
symbolic element: x for the value, r1, r2, … for the random draws, with addition in the ring, exclusive or on bits, casts between
widths and views of components.  The result of reconstructing is compared with x as a linear form, for every protocol, visibility,
owner, field and a number of parties of 2 to 4 where the protocol allows it; what one party is given is compared with x by
elimination over the random terms.  The exchange is evaluated for all parties together, messages included."""
ASSUME = ['ring_* helpers and the pseudo-random generators of the base library do what their names say (ring_add adds, ring_rand draws afresh)',
          'encodeToRing and decodeFromRing are inverse for the values they are given',
          'a link delivers the messages of one party to another in order',
          'one symbolic element stands for every element: the loops run over every index']


def run(P, rep):
    sharing_io.run(P, rep)
    ioclient.run(P, rep)
    ioclient.exchange(P, rep)
    rep.need('protocol io classes', rep.counts.get('protocol io classes', 0), 5)
