------------------------------- MODULE ExactMC -------------------------------
(* The assignment machine on a few values: TLC explores every sequence of        *)
(* assignments up to the depth and checks the algebra of the operations.          *)
EXTENDS Exact, FiniteSets
CONSTANT Depth
VARIABLE k
Vals == {"0","1","-1","2","-3","1/2","-2/3","inf","-inf","nan"}
Ops1 == {"neg","pos","sqr","abs","hlf"}
Ops2 == {"add","sub","mul","min","max"}
Init == k = 0 /\ reg \in [1..3 -> Vals]
Small(x) == x = Lost \/ ~RIsFin(x) \/ (RLe(RAbs(x),"8") /\ RLe(RDen(x),"8"))
Next == /\ k < Depth /\ k' = k + 1
        /\ \E d \in 1..3, s \in 1..3, t \in 1..3 :
             /\ reg[s] # Lost /\ reg[t] # Lost
             /\ \/ \E f \in Ops1 : Assign(d,f,<<s>>,0,"")
                \/ \E f \in Ops2 : Assign(d,f,<<s,t>>,0,"")
                \/ s # d /\ Assign(d,"move",<<s>>,0,"")
        /\ \A i \in 1..3 : Small(reg'[i])
Spec == Init /\ [][Next]_<<k,reg>>
Fin(i) == reg[i] # Lost /\ RIsFin(reg[i])
x == reg[1]   y == reg[2]   z == reg[3]
Ring == Fin(1) /\ Fin(2) /\ Fin(3) =>
          /\ F2("mul",x,F2("add",y,z)) = F2("add",F2("mul",x,y),F2("mul",x,z))
          /\ F2("sub",x,y) = F2("add",x,F1("neg",y,0))
          /\ F1("sqr",x,0) = F2("mul",x,x)
          /\ F1("abs",x,0) = F2("max",x,F1("neg",x,0))
          /\ F2("add",F2("min",x,y),F2("max",x,y)) = F2("add",x,y)
          /\ RSgn(y) # 0 => /\ F2("add",F2("mul",y,F2("quot",x,y)),F2("rem",x,y)) = x
                            /\ F2("mul",y,F2("div",x,y)) = x
                            /\ RLt(RAbs(F2("rem",x,y)),RAbs(y))
\* the interval images contain the image of the end points and of the mid point
Ivl == Fin(1) /\ Fin(2) /\ Fin(3) /\ RLe(x,y) =>
         LET m == RDiv(RAdd(x,y),"2")  In(v,i) == RLe(i[1],v) /\ RLe(v,i[2])
         IN /\ \A f \in {"neg","pos","hlf","sqr","abs"} : \A p \in {x,y,m} : In(F1(f,p,0),Img1(f,<<x,y>>,0))
            /\ \A n \in 0..3 : \A p \in {x,y,m} : In(RPow(p,n),Img1("pow",<<x,y>>,n))
            /\ \A f \in {"add","sub","mul","min","max"} : \A p \in {x,y,m} : In(F2(f,p,z),Img2(f,<<x,y>>,<<z,z>>))
LostOnly == \A i \in 1..3 : reg[i] = Lost \/ R(reg[i]) = reg[i]
===============================================================================
