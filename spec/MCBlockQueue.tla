---------------------------- MODULE MCBlockQueue ----------------------------
EXTENDS BlockQueue
\* each scenario has as many requested as put elements
S1 == << << <<"p", <<1>>, 0>>, <<"p", <<2>>, 0>> >>, << <<"P", <<3, 4>>, 0>> >>, << <<"t", <<>>, 1>>, <<"t", <<>>, 1>> >>, << <<"F", <<>>, 2>> >> >>
S2 == << << <<"P", <<1, 2, 3>>, 0>> >>, << <<"F", <<>>, 2>> >>, << <<"F", <<>>, 2>> >>, << <<"p", <<4>>, 0>> >> >>
S3 == << << <<"p", <<1>>, 0>> >>, << <<"p", <<2>>, 0>> >>, << <<"t", <<>>, 1>> >>, << <<"T", <<>>, 1>> >> >>
S4 == << << <<"P", <<1, 2, 0>>, 0>> >>, << <<"F", <<>>, 4>> >>, << <<"p", <<3>>, 0>> >>, << <<"t", <<>>, 1>> >> >>
S5 == << << <<"P", <<1, 2>>, 0>> >>, << <<"y", <<>>, 1>>, <<"y", <<>>, 1>> >>, << <<"p", <<3>>, 0>> >>, << <<"t", <<>>, 1>> >> >>
S6 == << << <<"P", <<1, 2, 3, 4>>, 0>> >>, << <<"P", <<5, 6>>, 0>> >>, << <<"F", <<>>, 3>> >>, << <<"T", <<>>, 1>>, <<"F", <<>>, 2>> >> >>
S7 == << << <<"p", <<1>>, 0>>, <<"p", <<2>>, 0>>, <<"p", <<3>>, 0>> >>, << <<"t", <<>>, 1>> >>, << <<"t", <<>>, 1>> >>, << <<"t", <<>>, 1>> >> >>
S8 == << << <<"t", <<>>, 1>>, <<"t", <<>>, 1>>, <<"t", <<>>, 1>> >>, << <<"p", <<1>>, 0>> >>, << <<"p", <<2>>, 0>> >>, << <<"p", <<3>>, 0>> >> >>
=============================================================================
