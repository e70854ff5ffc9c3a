------------------------------ MODULE PrimPolys ------------------------------
(* Coefficients c of primitive polynomials x^n + c[n] x^{n-1} + .. + c[1]    *)
(* over F_p. Found by search; Field verifies primitivity when it builds F.   *)
EXTENDS Integers
PrimPoly(p, n) ==
  CASE 
       p = 3 /\ n = 1 -> <<1>>
    [] p = 3 /\ n = 2 -> <<2, 1>>
    [] p = 3 /\ n = 3 -> <<1, 2, 0>>
    [] p = 3 /\ n = 4 -> <<2, 1, 0, 0>>
    [] p = 3 /\ n = 5 -> <<1, 2, 0, 0, 0>>
    [] p = 3 /\ n = 6 -> <<2, 1, 0, 0, 0, 0>>
    [] p = 3 /\ n = 7 -> <<1, 2, 1, 0, 0, 0, 0>>
    [] p = 3 /\ n = 8 -> <<2, 0, 0, 1, 0, 0, 0, 0>>
    [] p = 3 /\ n = 9 -> <<1, 0, 1, 2, 0, 0, 0, 0, 0>>
    [] p = 5 /\ n = 1 -> <<2>>
    [] p = 5 /\ n = 2 -> <<2, 1>>
    [] p = 5 /\ n = 3 -> <<2, 3, 0>>
    [] p = 5 /\ n = 4 -> <<2, 2, 1, 0>>
    [] p = 5 /\ n = 5 -> <<2, 4, 0, 0, 0>>
    [] p = 5 /\ n = 6 -> <<2, 1, 0, 0, 0, 0>>
    [] p = 7 /\ n = 1 -> <<2>>
    [] p = 7 /\ n = 2 -> <<3, 1>>
    [] p = 7 /\ n = 3 -> <<2, 3, 0>>
    [] p = 7 /\ n = 4 -> <<5, 3, 1, 0>>
    [] p = 7 /\ n = 5 -> <<4, 1, 0, 0, 0>>
    [] p = 11 /\ n = 1 -> <<3>>
    [] p = 11 /\ n = 2 -> <<7, 1>>
    [] p = 11 /\ n = 3 -> <<4, 1, 0>>
    [] p = 11 /\ n = 4 -> <<2, 1, 0, 0>>
    [] p = 13 /\ n = 1 -> <<2>>
    [] p = 13 /\ n = 2 -> <<2, 1>>
    [] p = 13 /\ n = 3 -> <<6, 1, 0>>
    [] p = 17 /\ n = 1 -> <<3>>
    [] p = 17 /\ n = 2 -> <<3, 1>>
    [] p = 17 /\ n = 3 -> <<3, 1, 0>>
    [] p = 19 /\ n = 1 -> <<4>>
    [] p = 19 /\ n = 2 -> <<2, 1>>
    [] p = 19 /\ n = 3 -> <<4, 1, 0>>
    [] p = 23 /\ n = 1 -> <<2>>
    [] p = 23 /\ n = 2 -> <<7, 1>>
    [] p = 23 /\ n = 3 -> <<3, 1, 0>>
    [] p = 29 /\ n = 1 -> <<2>>
    [] p = 29 /\ n = 2 -> <<3, 1>>
    [] p = 31 /\ n = 1 -> <<7>>
    [] p = 31 /\ n = 2 -> <<12, 1>>
    [] p = 37 /\ n = 1 -> <<2>>
    [] p = 37 /\ n = 2 -> <<5, 1>>
    [] p = 41 /\ n = 1 -> <<6>>
    [] p = 41 /\ n = 2 -> <<12, 1>>
    [] p = 43 /\ n = 1 -> <<9>>
    [] p = 43 /\ n = 2 -> <<3, 1>>
    [] p = 47 /\ n = 1 -> <<2>>
    [] p = 47 /\ n = 2 -> <<13, 1>>
    [] p = 53 /\ n = 1 -> <<2>>
    [] p = 53 /\ n = 2 -> <<5, 1>>
    [] p = 59 /\ n = 1 -> <<3>>
    [] p = 59 /\ n = 2 -> <<2, 1>>
    [] p = 61 /\ n = 1 -> <<2>>
    [] p = 61 /\ n = 2 -> <<2, 1>>
    [] p = 67 /\ n = 1 -> <<4>>
    [] p = 67 /\ n = 2 -> <<12, 1>>
    [] p = 71 /\ n = 1 -> <<2>>
    [] p = 71 /\ n = 2 -> <<11, 1>>
    [] p = 73 /\ n = 1 -> <<5>>
    [] p = 73 /\ n = 2 -> <<11, 1>>
    [] p = 79 /\ n = 1 -> <<2>>
    [] p = 79 /\ n = 2 -> <<3, 1>>
    [] p = 83 /\ n = 1 -> <<3>>
    [] p = 83 /\ n = 2 -> <<2, 1>>
    [] p = 89 /\ n = 1 -> <<3>>
    [] p = 89 /\ n = 2 -> <<6, 1>>
    [] p = 97 /\ n = 1 -> <<5>>
    [] p = 97 /\ n = 2 -> <<5, 1>>
    [] p = 101 /\ n = 1 -> <<2>>
    [] p = 101 /\ n = 2 -> <<3, 1>>
    [] p = 103 /\ n = 1 -> <<2>>
    [] p = 103 /\ n = 2 -> <<5, 1>>
    [] p = 107 /\ n = 1 -> <<3>>
    [] p = 107 /\ n = 2 -> <<5, 1>>
    [] p = 109 /\ n = 1 -> <<6>>
    [] p = 109 /\ n = 2 -> <<6, 1>>
    [] p = 113 /\ n = 1 -> <<3>>
    [] p = 113 /\ n = 2 -> <<10, 1>>
    [] p = 127 /\ n = 1 -> <<9>>
    [] p = 127 /\ n = 2 -> <<3, 1>>
    [] p = 131 /\ n = 1 -> <<3>>
    [] p = 131 /\ n = 2 -> <<14, 1>>
    [] p = 137 /\ n = 1 -> <<3>>
    [] p = 137 /\ n = 2 -> <<6, 1>>
    [] p = 139 /\ n = 1 -> <<4>>
    [] p = 139 /\ n = 2 -> <<2, 1>>
    [] p = 149 /\ n = 1 -> <<2>>
    [] p = 151 /\ n = 1 -> <<5>>
    [] p = 157 /\ n = 1 -> <<5>>
    [] p = 163 /\ n = 1 -> <<4>>
    [] p = 167 /\ n = 1 -> <<2>>
    [] p = 173 /\ n = 1 -> <<2>>
    [] p = 179 /\ n = 1 -> <<3>>
    [] p = 181 /\ n = 1 -> <<2>>
    [] p = 191 /\ n = 1 -> <<2>>
    [] p = 193 /\ n = 1 -> <<5>>
    [] p = 197 /\ n = 1 -> <<2>>
    [] p = 199 /\ n = 1 -> <<2>>
    [] p = 211 /\ n = 1 -> <<4>>
    [] p = 223 /\ n = 1 -> <<9>>
    [] p = 227 /\ n = 1 -> <<3>>
    [] p = 229 /\ n = 1 -> <<6>>
    [] p = 233 /\ n = 1 -> <<3>>
    [] p = 239 /\ n = 1 -> <<2>>
    [] p = 241 /\ n = 1 -> <<7>>
    [] p = 251 /\ n = 1 -> <<3>>
    [] p = 257 /\ n = 1 -> <<3>>
    [] p = 263 /\ n = 1 -> <<2>>
    [] p = 269 /\ n = 1 -> <<2>>
    [] p = 271 /\ n = 1 -> <<2>>
    [] p = 277 /\ n = 1 -> <<5>>
    [] p = 281 /\ n = 1 -> <<3>>
    [] p = 283 /\ n = 1 -> <<6>>
    [] p = 293 /\ n = 1 -> <<2>>
    [] p = 307 /\ n = 1 -> <<7>>
    [] p = 311 /\ n = 1 -> <<2>>
    [] p = 313 /\ n = 1 -> <<10>>
    [] p = 317 /\ n = 1 -> <<2>>
    [] p = 331 /\ n = 1 -> <<5>>
    [] p = 337 /\ n = 1 -> <<10>>
    [] p = 347 /\ n = 1 -> <<3>>
    [] p = 349 /\ n = 1 -> <<2>>
    [] p = 353 /\ n = 1 -> <<3>>
    [] p = 359 /\ n = 1 -> <<2>>
    [] p = 367 /\ n = 1 -> <<2>>
    [] p = 373 /\ n = 1 -> <<2>>
    [] p = 379 /\ n = 1 -> <<4>>
    [] p = 383 /\ n = 1 -> <<2>>
    [] p = 389 /\ n = 1 -> <<2>>
    [] p = 397 /\ n = 1 -> <<5>>
    [] p = 401 /\ n = 1 -> <<3>>
    [] p = 409 /\ n = 1 -> <<21>>
    [] p = 419 /\ n = 1 -> <<3>>
    [] p = 421 /\ n = 1 -> <<2>>
    [] p = 431 /\ n = 1 -> <<5>>
    [] p = 433 /\ n = 1 -> <<5>>
    [] p = 439 /\ n = 1 -> <<5>>
    [] p = 443 /\ n = 1 -> <<3>>
    [] p = 449 /\ n = 1 -> <<3>>
    [] p = 457 /\ n = 1 -> <<13>>
    [] p = 461 /\ n = 1 -> <<2>>
    [] p = 463 /\ n = 1 -> <<2>>
    [] p = 467 /\ n = 1 -> <<3>>
    [] p = 479 /\ n = 1 -> <<2>>
    [] p = 487 /\ n = 1 -> <<2>>
    [] p = 491 /\ n = 1 -> <<4>>
    [] p = 499 /\ n = 1 -> <<5>>
    [] p = 503 /\ n = 1 -> <<2>>
    [] p = 509 /\ n = 1 -> <<2>>
    [] p = 521 /\ n = 1 -> <<3>>
    [] p = 523 /\ n = 1 -> <<4>>
    [] p = 541 /\ n = 1 -> <<2>>
    [] p = 547 /\ n = 1 -> <<4>>
    [] p = 557 /\ n = 1 -> <<2>>
    [] p = 563 /\ n = 1 -> <<3>>
    [] p = 569 /\ n = 1 -> <<3>>
    [] p = 571 /\ n = 1 -> <<5>>
    [] p = 577 /\ n = 1 -> <<5>>
    [] p = 587 /\ n = 1 -> <<3>>
    [] p = 593 /\ n = 1 -> <<3>>
    [] p = 599 /\ n = 1 -> <<2>>
    [] p = 601 /\ n = 1 -> <<7>>
    [] p = 607 /\ n = 1 -> <<2>>
    [] p = 613 /\ n = 1 -> <<2>>
    [] p = 617 /\ n = 1 -> <<3>>
    [] p = 619 /\ n = 1 -> <<4>>
    [] p = 631 /\ n = 1 -> <<9>>
    [] p = 641 /\ n = 1 -> <<3>>
    [] p = 643 /\ n = 1 -> <<7>>
    [] p = 647 /\ n = 1 -> <<2>>
    [] p = 653 /\ n = 1 -> <<2>>
    [] p = 659 /\ n = 1 -> <<3>>
    [] p = 661 /\ n = 1 -> <<2>>
    [] p = 673 /\ n = 1 -> <<5>>
    [] p = 677 /\ n = 1 -> <<2>>
    [] p = 683 /\ n = 1 -> <<10>>
    [] p = 691 /\ n = 1 -> <<6>>
    [] p = 701 /\ n = 1 -> <<2>>
    [] p = 709 /\ n = 1 -> <<2>>
    [] p = 719 /\ n = 1 -> <<2>>
    [] p = 727 /\ n = 1 -> <<7>>
    [] p = 733 /\ n = 1 -> <<6>>
    [] p = 739 /\ n = 1 -> <<6>>
    [] p = 743 /\ n = 1 -> <<2>>
    [] p = 751 /\ n = 1 -> <<2>>
    [] p = 757 /\ n = 1 -> <<2>>
    [] p = 761 /\ n = 1 -> <<6>>
    [] p = 769 /\ n = 1 -> <<11>>
    [] p = 773 /\ n = 1 -> <<2>>
    [] p = 787 /\ n = 1 -> <<4>>
    [] p = 797 /\ n = 1 -> <<2>>
    [] p = 809 /\ n = 1 -> <<3>>
    [] p = 811 /\ n = 1 -> <<5>>
    [] p = 821 /\ n = 1 -> <<2>>
    [] p = 823 /\ n = 1 -> <<2>>
    [] p = 827 /\ n = 1 -> <<3>>
    [] p = 829 /\ n = 1 -> <<2>>
    [] p = 839 /\ n = 1 -> <<2>>
    [] p = 853 /\ n = 1 -> <<2>>
    [] p = 857 /\ n = 1 -> <<3>>
    [] p = 859 /\ n = 1 -> <<4>>
    [] p = 863 /\ n = 1 -> <<2>>
    [] p = 877 /\ n = 1 -> <<2>>
    [] p = 881 /\ n = 1 -> <<3>>
    [] p = 883 /\ n = 1 -> <<4>>
    [] p = 887 /\ n = 1 -> <<2>>
    [] p = 907 /\ n = 1 -> <<4>>
    [] p = 911 /\ n = 1 -> <<3>>
    [] p = 919 /\ n = 1 -> <<5>>
    [] p = 929 /\ n = 1 -> <<3>>
    [] p = 937 /\ n = 1 -> <<5>>
    [] p = 941 /\ n = 1 -> <<2>>
    [] p = 947 /\ n = 1 -> <<3>>
    [] p = 953 /\ n = 1 -> <<3>>
    [] p = 967 /\ n = 1 -> <<2>>
    [] p = 971 /\ n = 1 -> <<3>>
    [] p = 977 /\ n = 1 -> <<3>>
    [] p = 983 /\ n = 1 -> <<2>>
    [] p = 991 /\ n = 1 -> <<2>>
    [] p = 997 /\ n = 1 -> <<7>>
    [] p = 1009 /\ n = 1 -> <<11>>
    [] p = 1013 /\ n = 1 -> <<3>>
    [] p = 1019 /\ n = 1 -> <<3>>
    [] p = 1021 /\ n = 1 -> <<10>>
    [] p = 1031 /\ n = 1 -> <<2>>
    [] p = 1033 /\ n = 1 -> <<5>>
    [] p = 1039 /\ n = 1 -> <<2>>
    [] p = 1049 /\ n = 1 -> <<3>>
    [] p = 1051 /\ n = 1 -> <<5>>
    [] p = 1061 /\ n = 1 -> <<2>>
    [] p = 1063 /\ n = 1 -> <<2>>
    [] p = 1069 /\ n = 1 -> <<6>>
    [] p = 1087 /\ n = 1 -> <<2>>
    [] p = 1091 /\ n = 1 -> <<4>>
    [] p = 1093 /\ n = 1 -> <<5>>
    [] p = 1097 /\ n = 1 -> <<3>>
    [] p = 2003 /\ n = 1 -> <<3>>
    [] p = 4001 /\ n = 1 -> <<3>>
    [] p = 10007 /\ n = 1 -> <<2>>
    [] p = 10009 /\ n = 1 -> <<11>>
    [] p = 20011 /\ n = 1 -> <<6>>
    [] p = 30011 /\ n = 1 -> <<3>>
    [] p = 40009 /\ n = 1 -> <<11>>
=============================================================================
