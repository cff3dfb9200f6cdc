---- MODULE RouteGen4m ----
EXTENDS RouteGen
Some == {{<<1,2>>,<<2,3>>,<<3,4>>}, {<<1,4>>,<<2,4>>,<<3,4>>}, {<<1,2>>,<<2,3>>,<<3,4>>,<<1,4>>}, {<<1,3>>,<<3,4>>,<<2,4>>}}
====
