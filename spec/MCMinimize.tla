------------------------------ MODULE MCMinimize ------------------------------
EXTENDS Minimize
Q == { RZero, <<1, 2>>, ROne, I2R(-2) }
MCObjectives == { [a |-> <<a, b>>, c |-> <<cc, RZero>>, l |-> <<RZero, l>>, d |-> ROne] :
                    a \in {RZero, <<1, 2>>, ROne}, b \in {RZero, ROne}, cc \in {ROne, I2R(-2)}, l \in {RZero, ROne} }
MCOptimizers == { [name |-> n, lr |-> lr, mu |-> mu, b |-> 1] :
                    n \in {"sgd", "heavy", "nesterov", "clip", "halving", "adam"}, lr \in {<<1, 4>>, ROne}, mu \in {RZero, <<1, 2>>} }
MCStarts == { <<u, v>> : u \in {RZero, I2R(2)}, v \in {<<1, 2>>} }
=============================================================================
