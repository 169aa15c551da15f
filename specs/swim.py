"""
Reference function of the native kernel.
"""


@of('cpp.swim:hi', 'K01', alt=('hi_down',))
def hi(n1: 'int', a1: '[num]', n2: 'int', a2: '[num]', n3: 'int', a3: '[num]'):
    """Only the elements that all three arrays have."""
    REQUIRE(a1 is not a2 and a1 is not a3 and a2 is not a3)
    for i in range(min([n1, n2, n3])):
        a1[i] = a1[i] + 1
        a2[i] = a2[i] + 2
        a3[i] = a3[i] + 3


@of('cpp.swim:hi', 'K01', variant=True)
def hi_down(n1: 'int', a1: '[num]', n2: 'int', a2: '[num]', n3: 'int', a3: '[num]'):
    """The same from the last element to the first."""
    REQUIRE(a1 is not a2 and a1 is not a3 and a2 is not a3)
    for i in range(min([n1, n2, n3]) - 1, -1, -1):
        a1[i] = a1[i] + 1
        a2[i] = a2[i] + 2
        a3[i] = a3[i] + 3
