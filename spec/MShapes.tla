------------------------------ MODULE MShapes ------------------------------
(* The matrix expression shapes built as one C++ expression.  This committed  *)
(* copy lists every shape of lib/mshapes.py; a check uses those of a profile. *)
MShapes == <<
  <<"+", <<"X">>, <<"X">>>>,
  <<"+", <<"X">>, <<"T">>>>,
  <<"+", <<"X">>, <<"P">>>>,
  <<"+", <<"X">>, <<"S">>>>,
  <<"+", <<"X">>, <<"E">>>>,
  <<"+", <<"T">>, <<"X">>>>,
  <<"+", <<"T">>, <<"E">>>>,
  <<"+", <<"P">>, <<"X">>>>,
  <<"+", <<"S">>, <<"X">>>>,
  <<"+", <<"E">>, <<"X">>>>,
  <<"+", <<"E">>, <<"T">>>>,
  <<"+", <<"E">>, <<"E">>>>,
  <<"-", <<"X">>, <<"X">>>>,
  <<"-", <<"X">>, <<"T">>>>,
  <<"-", <<"X">>, <<"P">>>>,
  <<"-", <<"X">>, <<"S">>>>,
  <<"-", <<"X">>, <<"E">>>>,
  <<"-", <<"T">>, <<"X">>>>,
  <<"-", <<"T">>, <<"E">>>>,
  <<"-", <<"P">>, <<"X">>>>,
  <<"-", <<"S">>, <<"X">>>>,
  <<"-", <<"E">>, <<"X">>>>,
  <<"-", <<"E">>, <<"T">>>>,
  <<"-", <<"E">>, <<"E">>>>,
  <<"*", <<"X">>, <<"X">>>>,
  <<"*", <<"X">>, <<"T">>>>,
  <<"*", <<"X">>, <<"P">>>>,
  <<"*", <<"X">>, <<"S">>>>,
  <<"*", <<"X">>, <<"E">>>>,
  <<"*", <<"T">>, <<"X">>>>,
  <<"*", <<"T">>, <<"E">>>>,
  <<"*", <<"P">>, <<"X">>>>,
  <<"*", <<"S">>, <<"X">>>>,
  <<"*", <<"E">>, <<"X">>>>,
  <<"*", <<"E">>, <<"T">>>>,
  <<"*", <<"E">>, <<"E">>>>,
  <<"^", <<"X">>, <<"X">>>>,
  <<"^", <<"X">>, <<"T">>>>,
  <<"^", <<"X">>, <<"P">>>>,
  <<"^", <<"X">>, <<"S">>>>,
  <<"^", <<"X">>, <<"E">>>>,
  <<"^", <<"T">>, <<"X">>>>,
  <<"^", <<"T">>, <<"E">>>>,
  <<"^", <<"P">>, <<"X">>>>,
  <<"^", <<"S">>, <<"X">>>>,
  <<"^", <<"E">>, <<"X">>>>,
  <<"^", <<"E">>, <<"T">>>>,
  <<"^", <<"E">>, <<"E">>>>,
  <<"s+m", <<"t">>, <<"X">>>>,
  <<"s+m", <<"t">>, <<"E">>>>,
  <<"s+m", <<"v">>, <<"X">>>>,
  <<"s+m", <<"v">>, <<"E">>>>,
  <<"s+m", <<"p">>, <<"X">>>>,
  <<"s+m", <<"p">>, <<"E">>>>,
  <<"s+m", <<"e">>, <<"X">>>>,
  <<"s+m", <<"e">>, <<"E">>>>,
  <<"m+s", <<"t">>, <<"X">>>>,
  <<"m+s", <<"t">>, <<"E">>>>,
  <<"m+s", <<"v">>, <<"X">>>>,
  <<"m+s", <<"v">>, <<"E">>>>,
  <<"m+s", <<"p">>, <<"X">>>>,
  <<"m+s", <<"p">>, <<"E">>>>,
  <<"m+s", <<"e">>, <<"X">>>>,
  <<"m+s", <<"e">>, <<"E">>>>,
  <<"s-m", <<"t">>, <<"X">>>>,
  <<"s-m", <<"t">>, <<"E">>>>,
  <<"s-m", <<"v">>, <<"X">>>>,
  <<"s-m", <<"v">>, <<"E">>>>,
  <<"s-m", <<"p">>, <<"X">>>>,
  <<"s-m", <<"p">>, <<"E">>>>,
  <<"s-m", <<"e">>, <<"X">>>>,
  <<"s-m", <<"e">>, <<"E">>>>,
  <<"m-s", <<"t">>, <<"X">>>>,
  <<"m-s", <<"t">>, <<"E">>>>,
  <<"m-s", <<"v">>, <<"X">>>>,
  <<"m-s", <<"v">>, <<"E">>>>,
  <<"m-s", <<"p">>, <<"X">>>>,
  <<"m-s", <<"p">>, <<"E">>>>,
  <<"m-s", <<"e">>, <<"X">>>>,
  <<"m-s", <<"e">>, <<"E">>>>,
  <<"s*m", <<"t">>, <<"X">>>>,
  <<"s*m", <<"t">>, <<"E">>>>,
  <<"s*m", <<"v">>, <<"X">>>>,
  <<"s*m", <<"v">>, <<"E">>>>,
  <<"s*m", <<"p">>, <<"X">>>>,
  <<"s*m", <<"p">>, <<"E">>>>,
  <<"s*m", <<"e">>, <<"X">>>>,
  <<"s*m", <<"e">>, <<"E">>>>,
  <<"m*s", <<"t">>, <<"X">>>>,
  <<"m*s", <<"t">>, <<"E">>>>,
  <<"m*s", <<"v">>, <<"X">>>>,
  <<"m*s", <<"v">>, <<"E">>>>,
  <<"m*s", <<"p">>, <<"X">>>>,
  <<"m*s", <<"p">>, <<"E">>>>,
  <<"m*s", <<"e">>, <<"X">>>>,
  <<"m*s", <<"e">>, <<"E">>>>,
  <<"m/s", <<"t">>, <<"X">>>>,
  <<"m/s", <<"t">>, <<"E">>>>,
  <<"m/s", <<"v">>, <<"X">>>>,
  <<"m/s", <<"v">>, <<"E">>>>,
  <<"m/s", <<"p">>, <<"X">>>>,
  <<"m/s", <<"p">>, <<"E">>>>,
  <<"m/s", <<"e">>, <<"X">>>>,
  <<"m/s", <<"e">>, <<"E">>>>,
  <<"s+m", <<"v">>, <<"T">>>>,
  <<"s+m", <<"t">>, <<"S">>>>,
  <<"m+s", <<"v">>, <<"T">>>>,
  <<"m+s", <<"e">>, <<"S">>>>,
  <<"s-m", <<"t">>, <<"T">>>>,
  <<"s-m", <<"t">>, <<"S">>>>,
  <<"m-s", <<"e">>, <<"T">>>>,
  <<"m-s", <<"t">>, <<"S">>>>,
  <<"s*m", <<"v">>, <<"T">>>>,
  <<"s*m", <<"e">>, <<"S">>>>,
  <<"m*s", <<"t">>, <<"T">>>>,
  <<"m*s", <<"e">>, <<"S">>>>,
  <<"m/s", <<"t">>, <<"T">>>>,
  <<"m/s", <<"t">>, <<"S">>>>,
  <<"tr", <<"X">>>>,
  <<"tr", <<"E">>>>,
  <<"inv", <<"X">>>>,
  <<"inv", <<"E">>>>,
  <<"det", <<"X">>>>,
  <<"det", <<"E">>>>,
  <<"vec", <<"X">>>>,
  <<"vec", <<"E">>>>,
  <<"SinM", <<"X">>>>,
  <<"SinM", <<"E">>>>,
  <<"CosM", <<"X">>>>,
  <<"CosM", <<"E">>>>,
  <<"ExpM", <<"X">>>>,
  <<"ExpM", <<"E">>>>,
  <<"LogM", <<"X">>>>,
  <<"LogM", <<"E">>>>,
  <<"SqrtM", <<"X">>>>,
  <<"SqrtM", <<"E">>>>,
  <<"TanhM", <<"X">>>>,
  <<"TanhM", <<"E">>>>,
  <<"SigmoidM", <<"X">>>>,
  <<"SigmoidM", <<"E">>>>,
  <<"CubeM", <<"X">>>>,
  <<"CubeM", <<"E">>>>,
  <<"tr", <<"T">>>>,
  <<"tr", <<"S">>>>,
  <<"SinM", <<"S">>>>,
  <<"ExpM", <<"P">>>>,
  <<"det", <<"T">>>>,
  <<"inv", <<"T">>>>,
  <<"inv", <<"s-m", <<"p">>, <<"X">>>>>>,
  <<"SinM", <<"CubeM", <<"S">>>>>>,
  <<"TanhM", <<"det", <<"X">>>>>>,
  <<"SigmoidM", <<"s*m", <<"p">>, <<"E">>>>>>,
  <<"s+m", <<"v">>, <<"^", <<"E">>, <<"S">>>>>>,
  <<"m*s", <<"p">>, <<"CosM", <<"X">>>>>>,
  <<"SqrtM", <<"TanhM", <<"X">>>>>>,
  <<"vec", <<"s*m", <<"p">>, <<"X">>>>>>,
  <<"m+s", <<"t">>, <<"CosM", <<"X">>>>>>,
  <<"TanhM", <<"m-s", <<"v">>, <<"S">>>>>>,
  <<"SinM", <<"SinM", <<"E">>>>>>,
  <<"tr", <<"*", <<"X">>, <<"T">>>>>>,
  <<"s+m", <<"e">>, <<"LogM", <<"X">>>>>>,
  <<"m-s", <<"e">>, <<"SqrtM", <<"E">>>>>>,
  <<"CosM", <<"LogM", <<"S">>>>>>,
  <<"m+s", <<"v">>, <<"CubeM", <<"X">>>>>>,
  <<"SinM", <<"+", <<"X">>, <<"X">>>>>>,
  <<"s+m", <<"e">>, <<"s*m", <<"v">>, <<"X">>>>>>,
  <<"CubeM", <<"m*s", <<"p">>, <<"X">>>>>>,
  <<"-", <<"-", <<"X">>, <<"X">>>>, <<"T">>>>,
  <<"-", <<"+", <<"T">>, <<"X">>>>, <<"E">>>>,
  <<"vec", <<"^", <<"E">>, <<"S">>>>>>,
  <<"s+m", <<"v">>, <<"*", <<"X">>, <<"E">>>>>>,
  <<"CosM", <<"s*m", <<"p">>, <<"X">>>>>>,
  <<"m*s", <<"v">>, <<"m/s", <<"e">>, <<"X">>>>>>,
  <<"-", <<"s-m", <<"p">>, <<"E">>>>, <<"T">>>>,
  <<"SigmoidM", <<"vec", <<"X">>>>>>,
  <<"det", <<"tr", <<"S">>>>>>,
  <<"^", <<"+", <<"X">>, <<"X">>>>, <<"T">>>>,
  <<"s*m", <<"p">>, <<"tr", <<"X">>>>>>,
  <<"^", <<"tr", <<"X">>>>, <<"E">>>>,
  <<"^", <<"^", <<"X">>, <<"T">>>>, <<"X">>>>,
  <<"LogM", <<"m+s", <<"v">>, <<"S">>>>>>,
  <<"tr", <<"m+s", <<"t">>, <<"X">>>>>>,
  <<"CubeM", <<"m+s", <<"p">>, <<"X">>>>>>,
  <<"CosM", <<"-", <<"X">>, <<"T">>>>>>,
  <<"^", <<"m/s", <<"t">>, <<"E">>>>, <<"T">>>>,
  <<"m*s", <<"t">>, <<"inv", <<"X">>>>>>,
  <<"vec", <<"SigmoidM", <<"S">>>>>>,
  <<"CosM", <<"inv", <<"S">>>>>>,
  <<"vec", <<"vec", <<"X">>>>>>,
  <<"m/s", <<"e">>, <<"-", <<"S">>, <<"S">>>>>>,
  <<"CosM", <<"+", <<"X">>, <<"S">>>>>>,
  <<"det", <<"CosM", <<"E">>>>>>,
  <<"*", <<"SigmoidM", <<"X">>>>, <<"P">>>>,
  <<"s+m", <<"e">>, <<"s-m", <<"v">>, <<"X">>>>>>,
  <<"+", <<"P">>, <<"s*m", <<"v">>, <<"S">>>>>>,
  <<"^", <<"X">>, <<"m*s", <<"t">>, <<"S">>>>>>,
  <<"TanhM", <<"SinM", <<"X">>>>>>,
  <<"s*m", <<"t">>, <<"CubeM", <<"X">>>>>>,
  <<"^", <<"X">>, <<"LogM", <<"X">>>>>>,
  <<"s-m", <<"t">>, <<"s*m", <<"e">>, <<"E">>>>>>,
  <<"s*m", <<"v">>, <<"m*s", <<"t">>, <<"S">>>>>>,
  <<"CosM", <<"*", <<"T">>, <<"X">>>>>>,
  <<"s-m", <<"t">>, <<"^", <<"X">>, <<"T">>>>>>,
  <<"SqrtM", <<"^", <<"S">>, <<"E">>>>>>,
  <<"inv", <<"s*m", <<"t">>, <<"S">>>>>>,
  <<"vec", <<"SqrtM", <<"X">>>>>>,
  <<"det", <<"m-s", <<"e">>, <<"X">>>>>>,
  <<"m*s", <<"v">>, <<"m*s", <<"t">>, <<"X">>>>>>,
  <<"ExpM", <<"CubeM", <<"X">>>>>>,
  <<"LogM", <<"tr", <<"X">>>>>>,
  <<"m/s", <<"e">>, <<"s+m", <<"e">>, <<"E">>>>>>,
  <<"s*m", <<"p">>, <<"m-s", <<"t">>, <<"E">>>>>>,
  <<"TanhM", <<"m/s", <<"t">>, <<"S">>>>>>,
  <<"SqrtM", <<"s-m", <<"v">>, <<"X">>>>>>,
  <<"tr", <<"vec", <<"S">>>>>>,
  <<"vec", <<"s+m", <<"v">>, <<"X">>>>>>,
  <<"SigmoidM", <<"m/s", <<"p">>, <<"X">>>>>>,
  <<"m-s", <<"e">>, <<"m*s", <<"v">>, <<"X">>>>>>,
  <<"TanhM", <<"s*m", <<"t">>, <<"E">>>>>>,
  <<"s+m", <<"t">>, <<"inv", <<"X">>>>>>,
  <<"vec", <<"inv", <<"X">>>>>>,
  <<"m-s", <<"p">>, <<"+", <<"S">>, <<"T">>>>>>,
  <<"s+m", <<"p">>, <<"CosM", <<"S">>>>>>,
  <<"m*s", <<"e">>, <<"^", <<"T">>, <<"X">>>>>>,
  <<"m-s", <<"v">>, <<"s+m", <<"t">>, <<"S">>>>>>,
  <<"m+s", <<"e">>, <<"m/s", <<"p">>, <<"X">>>>>>,
  <<"*", <<"m*s", <<"t">>, <<"X">>>>, <<"P">>>>,
  <<"^", <<"E">>, <<"inv", <<"E">>>>>>,
  <<"CosM", <<"s+m", <<"v">>, <<"X">>>>>>,
  <<"TanhM", <<"s+m", <<"t">>, <<"S">>>>>>,
  <<"det", <<"m/s", <<"t">>, <<"X">>>>>>,
  <<"det", <<"SqrtM", <<"S">>>>>>,
  <<"+", <<"X">>, <<"inv", <<"X">>>>>>,
  <<"-", <<"X">>, <<"m+s", <<"p">>, <<"X">>>>>>,
  <<"LogM", <<"m-s", <<"e">>, <<"E">>>>>>,
  <<"s+m", <<"t">>, <<"ExpM", <<"E">>>>>>,
  <<"m*s", <<"e">>, <<"*", <<"X">>, <<"X">>>>>>,
  <<"+", <<"LogM", <<"E">>>>, <<"X">>>>,
  <<"CubeM", <<"+", <<"T">>, <<"X">>>>>>,
  <<"SqrtM", <<"ExpM", <<"E">>>>>>,
  <<"CubeM", <<"CosM", <<"X">>>>>>,
  <<"^", <<"X">>, <<"CubeM", <<"X">>>>>>,
  <<"+", <<"E">>, <<"SqrtM", <<"X">>>>>>,
  <<"tr", <<"^", <<"X">>, <<"X">>>>>>,
  <<"s-m", <<"p">>, <<"CosM", <<"X">>>>>>,
  <<"m/s", <<"p">>, <<"det", <<"X">>>>>>,
  <<"SinM", <<"TanhM", <<"X">>>>>>,
  <<"SinM", <<"m*s", <<"e">>, <<"E">>>>>>,
  <<"LogM", <<"SqrtM", <<"S">>>>>>,
  <<"det", <<"vec", <<"X">>>>>>,
  <<"m*s", <<"e">>, <<"vec", <<"X">>>>>>,
  <<"+", <<"m*s", <<"p">>, <<"X">>>>, <<"X">>>>,
  <<"m*s", <<"v">>, <<"s+m", <<"p">>, <<"X">>>>>>,
  <<"ExpM", <<"^", <<"X">>, <<"T">>>>>>,
  <<"SqrtM", <<"det", <<"S">>>>>>,
  <<"s-m", <<"p">>, <<"m/s", <<"p">>, <<"X">>>>>>,
  <<"ExpM", <<"SigmoidM", <<"E">>>>>>,
  <<"+", <<"E">>, <<"ExpM", <<"X">>>>>>,
  <<"SigmoidM", <<"+", <<"E">>, <<"E">>>>>>,
  <<"SinM", <<"ExpM", <<"X">>>>>>,
  <<"TanhM", <<"SqrtM", <<"X">>>>>>,
  <<"CubeM", <<"SqrtM", <<"X">>>>>>,
  <<"ExpM", <<"LogM", <<"E">>>>>>,
  <<"inv", <<"tr", <<"E">>>>>>,
  <<"LogM", <<"s-m", <<"v">>, <<"X">>>>>>,
  <<"TanhM", <<"TanhM", <<"E">>>>>>,
  <<"s*m", <<"v">>, <<"vec", <<"X">>>>>>,
  <<"vec", <<"CosM", <<"X">>>>>>,
  <<"m/s", <<"e">>, <<"SigmoidM", <<"E">>>>>>,
  <<"SqrtM", <<"s*m", <<"p">>, <<"X">>>>>>,
  <<"CubeM", <<"^", <<"X">>, <<"X">>>>>>,
  <<"s+m", <<"e">>, <<"tr", <<"X">>>>>>,
  <<"*", <<"CubeM", <<"X">>>>, <<"P">>>>,
  <<"*", <<"SqrtM", <<"E">>>>, <<"X">>>>,
  <<"*", <<"tr", <<"X">>>>, <<"E">>>>,
  <<"CubeM", <<"TanhM", <<"S">>>>>>,
  <<"m*s", <<"e">>, <<"TanhM", <<"X">>>>>>,
  <<"LogM", <<"-", <<"X">>, <<"T">>>>>>,
  <<"ExpM", <<"m*s", <<"e">>, <<"X">>>>>>,
  <<"s+m", <<"v">>, <<"SigmoidM", <<"S">>>>>>,
  <<"+", <<"CosM", <<"X">>>>, <<"T">>>>,
  <<"CosM", <<"det", <<"S">>>>>>,
  <<"m+s", <<"v">>, <<"+", <<"X">>, <<"X">>>>>>,
  <<"det", <<"LogM", <<"X">>>>>>,
  <<"-", <<"*", <<"X">>, <<"E">>>>, <<"X">>>>,
  <<"+", <<"m/s", <<"e">>, <<"E">>>>, <<"P">>>>,
  <<"SqrtM", <<"CosM", <<"X">>>>>>,
  <<"*", <<"*", <<"T">>, <<"X">>>>, <<"X">>>>,
  <<"CubeM", <<"inv", <<"E">>>>>>,
  <<"SqrtM", <<"s+m", <<"p">>, <<"S">>>>>>,
  <<"SinM", <<"m+s", <<"p">>, <<"X">>>>>>,
  <<"LogM", <<"CubeM", <<"S">>>>>>,
  <<"s*m", <<"v">>, <<"SinM", <<"S">>>>>>,
  <<"inv", <<"CubeM", <<"X">>>>>>,
  <<"m/s", <<"e">>, <<"m-s", <<"p">>, <<"X">>>>>>,
  <<"tr", <<"s-m", <<"e">>, <<"E">>>>>>,
  <<"m-s", <<"t">>, <<"m/s", <<"e">>, <<"X">>>>>>,
  <<"CosM", <<"CosM", <<"X">>>>>>,
  <<"m/s", <<"e">>, <<"m/s", <<"t">>, <<"E">>>>>>,
  <<"SigmoidM", <<"ExpM", <<"S">>>>>>,
  <<"det", <<"TanhM", <<"E">>>>>>,
  <<"-", <<"SigmoidM", <<"X">>>>, <<"P">>>>,
  <<"m*s", <<"e">>, <<"SinM", <<"E">>>>>>,
  <<"+", <<"-", <<"X">>, <<"X">>>>, <<"X">>>>,
  <<"s-m", <<"t">>, <<"ExpM", <<"S">>>>>>,
  <<"CubeM", <<"SigmoidM", <<"E">>>>>>,
  <<"s+m", <<"t">>, <<"TanhM", <<"X">>>>>>,
  <<"+", <<"s+m", <<"t">>, <<"X">>>>, <<"X">>>>,
  <<"m+s", <<"v">>, <<"SinM", <<"X">>>>>>,
  <<"s*m", <<"e">>, <<"s+m", <<"p">>, <<"S">>>>>>,
  <<"m*s", <<"t">>, <<"+", <<"S">>, <<"X">>>>>>,
  <<"CubeM", <<"m-s", <<"t">>, <<"X">>>>>>,
  <<"m-s", <<"v">>, <<"tr", <<"S">>>>>>,
  <<"SqrtM", <<"+", <<"T">>, <<"X">>>>>>,
  <<"m-s", <<"t">>, <<"inv", <<"X">>>>>>,
  <<"tr", <<"s*m", <<"t">>, <<"S">>>>>>,
  <<"s-m", <<"e">>, <<"tr", <<"X">>>>>>,
  <<"m+s", <<"v">>, <<"*", <<"X">>, <<"X">>>>>>,
  <<"CosM", <<"m-s", <<"e">>, <<"S">>>>>>,
  <<"+", <<"X">>, <<"SinM", <<"X">>>>>>,
  <<"CosM", <<"tr", <<"E">>>>>>,
  <<"s+m", <<"t">>, <<"SinM", <<"X">>>>>>,
  <<"s-m", <<"e">>, <<"-", <<"X">>, <<"X">>>>>>,
  <<"TanhM", <<"tr", <<"E">>>>>>,
  <<"vec", <<"tr", <<"X">>>>>>,
  <<"s-m", <<"v">>, <<"inv", <<"X">>>>>>,
  <<"*", <<"X">>, <<"SinM", <<"E">>>>>>,
  <<"m+s", <<"t">>, <<"det", <<"E">>>>>>,
  <<"SinM", <<"LogM", <<"X">>>>>>,
  <<"SigmoidM", <<"-", <<"S">>, <<"T">>>>>>,
  <<"LogM", <<"inv", <<"X">>>>>>,
  <<"m*s", <<"v">>, <<"-", <<"S">>, <<"T">>>>>>,
  <<"*", <<"P">>, <<"s*m", <<"t">>, <<"X">>>>>>,
  <<"SigmoidM", <<"inv", <<"X">>>>>>,
  <<"m*s", <<"e">>, <<"ExpM", <<"X">>>>>>,
  <<"LogM", <<"ExpM", <<"X">>>>>>,
  <<"LogM", <<"+", <<"X">>, <<"X">>>>>>,
  <<"TanhM", <<"m+s", <<"v">>, <<"E">>>>>>,
  <<"m-s", <<"p">>, <<"m+s", <<"v">>, <<"X">>>>>>,
  <<"CosM", <<"vec", <<"X">>>>>>,
  <<"+", <<"X">>, <<"^", <<"E">>, <<"T">>>>>>,
  <<"+", <<"X">>, <<"m+s", <<"e">>, <<"E">>>>>>,
  <<"LogM", <<"m/s", <<"v">>, <<"E">>>>>>,
  <<"s*m", <<"v">>, <<"inv", <<"X">>>>>>,
  <<"s-m", <<"v">>, <<"*", <<"X">>, <<"E">>>>>>,
  <<"SqrtM", <<"m*s", <<"e">>, <<"X">>>>>>,
  <<"^", <<"TanhM", <<"X">>>>, <<"E">>>>,
  <<"tr", <<"CubeM", <<"X">>>>>>,
  <<"m+s", <<"v">>, <<"s-m", <<"t">>, <<"X">>>>>>,
  <<"SinM", <<"*", <<"X">>, <<"X">>>>>>,
  <<"m/s", <<"e">>, <<"vec", <<"X">>>>>>,
  <<"SqrtM", <<"SigmoidM", <<"X">>>>>>,
  <<"m/s", <<"p">>, <<"m*s", <<"p">>, <<"E">>>>>>,
  <<"CosM", <<"^", <<"X">>, <<"T">>>>>>,
  <<"s-m", <<"t">>, <<"det", <<"X">>>>>>,
  <<"-", <<"SinM", <<"X">>>>, <<"X">>>>,
  <<"+", <<"X">>, <<"m-s", <<"p">>, <<"E">>>>>>,
  <<"SigmoidM", <<"m*s", <<"v">>, <<"E">>>>>>,
  <<"det", <<"^", <<"X">>, <<"X">>>>>>,
  <<"-", <<"ExpM", <<"E">>>>, <<"E">>>>,
  <<"inv", <<"SinM", <<"X">>>>>>,
  <<"m/s", <<"e">>, <<"m+s", <<"p">>, <<"S">>>>>>,
  <<"SigmoidM", <<"det", <<"X">>>>>>,
  <<"tr", <<"CosM", <<"X">>>>>>,
  <<"TanhM", <<"*", <<"X">>, <<"S">>>>>>,
  <<"s+m", <<"e">>, <<"m*s", <<"e">>, <<"X">>>>>>,
  <<"s*m", <<"e">>, <<"+", <<"X">>, <<"S">>>>>>,
  <<"tr", <<"LogM", <<"X">>>>>>,
  <<"+", <<"CubeM", <<"E">>>>, <<"X">>>>,
  <<"CosM", <<"ExpM", <<"X">>>>>>,
  <<"m-s", <<"t">>, <<"-", <<"X">>, <<"X">>>>>>,
  <<"s*m", <<"p">>, <<"LogM", <<"S">>>>>>,
  <<"ExpM", <<"tr", <<"X">>>>>>,
  <<"-", <<"CubeM", <<"X">>>>, <<"P">>>>,
  <<"SqrtM", <<"SqrtM", <<"X">>>>>>,
  <<"vec", <<"-", <<"X">>, <<"S">>>>>>,
  <<"SqrtM", <<"-", <<"S">>, <<"S">>>>>>,
  <<"tr", <<"det", <<"X">>>>>>,
  <<"SinM", <<"s-m", <<"p">>, <<"X">>>>>>,
  <<"tr", <<"m-s", <<"t">>, <<"S">>>>>>,
  <<"ExpM", <<"inv", <<"X">>>>>>,
  <<"m-s", <<"t">>, <<"s*m", <<"t">>, <<"X">>>>>>,
  <<"m*s", <<"e">>, <<"s-m", <<"e">>, <<"E">>>>>>,
  <<"+", <<"E">>, <<"SigmoidM", <<"X">>>>>>,
  <<"m-s", <<"v">>, <<"^", <<"X">>, <<"T">>>>>>,
  <<"vec", <<"CubeM", <<"X">>>>>>,
  <<"CubeM", <<"CubeM", <<"X">>>>>>,
  <<"m-s", <<"v">>, <<"s-m", <<"v">>, <<"S">>>>>>,
  <<"TanhM", <<"LogM", <<"X">>>>>>,
  <<"SinM", <<"det", <<"X">>>>>>,
  <<"SigmoidM", <<"SinM", <<"E">>>>>>,
  <<"SqrtM", <<"inv", <<"X">>>>>>,
  <<"s-m", <<"t">>, <<"LogM", <<"S">>>>>>,
  <<"m/s", <<"e">>, <<"+", <<"E">>, <<"X">>>>>>,
  <<"det", <<"s+m", <<"v">>, <<"X">>>>>>,
  <<"m+s", <<"t">>, <<"s*m", <<"e">>, <<"X">>>>>>,
  <<"det", <<"-", <<"T">>, <<"E">>>>>>,
  <<"ExpM", <<"CosM", <<"S">>>>>>,
  <<"CubeM", <<"m/s", <<"p">>, <<"X">>>>>>,
  <<"m+s", <<"t">>, <<"m+s", <<"e">>, <<"X">>>>>>,
  <<"*", <<"X">>, <<"inv", <<"X">>>>>>,
  <<"vec", <<"m-s", <<"t">>, <<"E">>>>>>,
  <<"vec", <<"m/s", <<"e">>, <<"E">>>>>>,
  <<"ExpM", <<"m/s", <<"v">>, <<"X">>>>>>,
  <<"SqrtM", <<"CubeM", <<"X">>>>>>,
  <<"m-s", <<"e">>, <<"ExpM", <<"E">>>>>>,
  <<"LogM", <<"*", <<"E">>, <<"S">>>>>>,
  <<"m-s", <<"t">>, <<"SinM", <<"X">>>>>>,
  <<"CosM", <<"SinM", <<"X">>>>>>,
  <<"m+s", <<"p">>, <<"ExpM", <<"X">>>>>>,
  <<"m/s", <<"p">>, <<"tr", <<"S">>>>>>,
  <<"s-m", <<"p">>, <<"m+s", <<"p">>, <<"X">>>>>>,
  <<"TanhM", <<"s-m", <<"v">>, <<"E">>>>>>,
  <<"+", <<"vec", <<"X">>>>, <<"X">>>>,
  <<"SigmoidM", <<"tr", <<"X">>>>>>,
  <<"SqrtM", <<"m+s", <<"p">>, <<"S">>>>>>,
  <<"inv", <<"m-s", <<"v">>, <<"X">>>>>>,
  <<"s+m", <<"p">>, <<"m/s", <<"t">>, <<"E">>>>>>,
  <<"m+s", <<"v">>, <<"-", <<"X">>, <<"E">>>>>>,
  <<"vec", <<"ExpM", <<"X">>>>>>,
  <<"m+s", <<"t">>, <<"m-s", <<"e">>, <<"X">>>>>>,
  <<"s+m", <<"v">>, <<"m-s", <<"t">>, <<"E">>>>>>,
  <<"inv", <<"^", <<"T">>, <<"X">>>>>>,
  <<"m-s", <<"v">>, <<"m-s", <<"t">>, <<"X">>>>>>,
  <<"tr", <<"s+m", <<"t">>, <<"X">>>>>>,
  <<"inv", <<"-", <<"X">>, <<"E">>>>>>,
  <<"SigmoidM", <<"*", <<"E">>, <<"X">>>>>>,
  <<"s+m", <<"p">>, <<"CubeM", <<"X">>>>>>,
  <<"m-s", <<"v">>, <<"SigmoidM", <<"S">>>>>>,
  <<"ExpM", <<"-", <<"T">>, <<"E">>>>>>,
  <<"s*m", <<"t">>, <<"^", <<"X">>, <<"S">>>>>>,
  <<"tr", <<"inv", <<"X">>>>>>,
  <<"m+s", <<"p">>, <<"LogM", <<"S">>>>>>,
  <<"*", <<"+", <<"X">>, <<"X">>>>, <<"X">>>>,
  <<"s-m", <<"v">>, <<"vec", <<"X">>>>>>,
  <<"SigmoidM", <<"CosM", <<"X">>>>>>,
  <<"det", <<"SigmoidM", <<"X">>>>>>,
  <<"inv", <<"*", <<"E">>, <<"S">>>>>>,
  <<"^", <<"E">>, <<"s-m", <<"v">>, <<"X">>>>>>,
  <<"TanhM", <<"ExpM", <<"X">>>>>>,
  <<"tr", <<"ExpM", <<"X">>>>>>,
  <<"SigmoidM", <<"m+s", <<"p">>, <<"X">>>>>>,
  <<"ExpM", <<"SqrtM", <<"X">>>>>>,
  <<"tr", <<"tr", <<"X">>>>>>,
  <<"^", <<"X">>, <<"det", <<"E">>>>>>,
  <<"det", <<"s-m", <<"e">>, <<"X">>>>>>,
  <<"m+s", <<"v">>, <<"TanhM", <<"E">>>>>>,
  <<"SqrtM", <<"SinM", <<"S">>>>>>,
  <<"vec", <<"s-m", <<"t">>, <<"X">>>>>>,
  <<"CubeM", <<"s+m", <<"e">>, <<"X">>>>>>,
  <<"-", <<"T">>, <<"TanhM", <<"E">>>>>>,
  <<"s-m", <<"t">>, <<"SigmoidM", <<"E">>>>>>,
  <<"m/s", <<"p">>, <<"ExpM", <<"X">>>>>>,
  <<"m/s", <<"e">>, <<"SinM", <<"E">>>>>>,
  <<"TanhM", <<"SigmoidM", <<"X">>>>>>,
  <<"m/s", <<"v">>, <<"SqrtM", <<"X">>>>>>,
  <<"ExpM", <<"vec", <<"E">>>>>>,
  <<"*", <<"CosM", <<"E">>>>, <<"X">>>>,
  <<"LogM", <<"det", <<"E">>>>>>,
  <<"vec", <<"+", <<"X">>, <<"T">>>>>>,
  <<"det", <<"m*s", <<"t">>, <<"X">>>>>>,
  <<"ExpM", <<"TanhM", <<"E">>>>>>,
  <<"m+s", <<"p">>, <<"vec", <<"S">>>>>>,
  <<"^", <<"m-s", <<"e">>, <<"X">>>>, <<"X">>>>,
  <<"s*m", <<"t">>, <<"s*m", <<"v">>, <<"E">>>>>>,
  <<"det", <<"CubeM", <<"S">>>>>>,
  <<"SinM", <<"m-s", <<"p">>, <<"S">>>>>>,
  <<"-", <<"det", <<"X">>>>, <<"T">>>>,
  <<"+", <<"X">>, <<"det", <<"X">>>>>>,
  <<"det", <<"SinM", <<"X">>>>>>,
  <<"s*m", <<"v">>, <<"*", <<"T">>, <<"X">>>>>>,
  <<"*", <<"X">>, <<"m+s", <<"p">>, <<"X">>>>>>,
  <<"tr", <<"SigmoidM", <<"E">>>>>>,
  <<"LogM", <<"s*m", <<"p">>, <<"X">>>>>>,
  <<"inv", <<"vec", <<"S">>>>>>,
  <<"+", <<"+", <<"S">>, <<"T">>>>, <<"P">>>>,
  <<"SigmoidM", <<"LogM", <<"X">>>>>>,
  <<"-", <<"P">>, <<"^", <<"S">>, <<"X">>>>>>,
  <<"det", <<"s*m", <<"v">>, <<"E">>>>>>,
  <<"SqrtM", <<"*", <<"X">>, <<"E">>>>>>,
  <<"*", <<"m/s", <<"v">>, <<"X">>>>, <<"P">>>>,
  <<"^", <<"vec", <<"X">>>>, <<"X">>>>,
  <<"m*s", <<"v">>, <<"LogM", <<"X">>>>>>,
  <<"s+m", <<"t">>, <<"vec", <<"X">>>>>>,
  <<"-", <<"X">>, <<"tr", <<"S">>>>>>,
  <<"s+m", <<"e">>, <<"m+s", <<"p">>, <<"X">>>>>>,
  <<"LogM", <<"m*s", <<"e">>, <<"S">>>>>>,
  <<"CosM", <<"CubeM", <<"X">>>>>>,
  <<"vec", <<"*", <<"S">>, <<"T">>>>>>,
  <<"CubeM", <<"LogM", <<"X">>>>>>,
  <<"*", <<"m-s", <<"v">>, <<"E">>>>, <<"T">>>>,
  <<"s*m", <<"e">>, <<"ExpM", <<"E">>>>>>,
  <<"s*m", <<"t">>, <<"TanhM", <<"X">>>>>>,
  <<"ExpM", <<"m+s", <<"t">>, <<"S">>>>>>,
  <<"ExpM", <<"s+m", <<"e">>, <<"E">>>>>>,
  <<"SigmoidM", <<"CubeM", <<"X">>>>>>,
  <<"SigmoidM", <<"SigmoidM", <<"E">>>>>>,
  <<"LogM", <<"LogM", <<"S">>>>>>,
  <<"-", <<"E">>, <<"s+m", <<"e">>, <<"X">>>>>>,
  <<"SinM", <<"-", <<"X">>, <<"X">>>>>>,
  <<"vec", <<"det", <<"X">>>>>>,
  <<"SigmoidM", <<"s-m", <<"p">>, <<"E">>>>>>,
  <<"tr", <<"m/s", <<"p">>, <<"X">>>>>>,
  <<"SinM", <<"s*m", <<"e">>, <<"S">>>>>>,
  <<"*", <<"X">>, <<"LogM", <<"S">>>>>>,
  <<"m-s", <<"t">>, <<"*", <<"S">>, <<"X">>>>>>,
  <<"inv", <<"det", <<"X">>>>>>,
  <<"TanhM", <<"vec", <<"S">>>>>>,
  <<"s*m", <<"e">>, <<"m+s", <<"t">>, <<"X">>>>>>,
  <<"tr", <<"TanhM", <<"X">>>>>>,
  <<"SqrtM", <<"LogM", <<"X">>>>>>,
  <<"^", <<"X">>, <<"m+s", <<"t">>, <<"S">>>>>>,
  <<"+", <<"E">>, <<"*", <<"X">>, <<"X">>>>>>,
  <<"s-m", <<"v">>, <<"s-m", <<"p">>, <<"X">>>>>>,
  <<"m+s", <<"p">>, <<"SqrtM", <<"X">>>>>>,
  <<"s+m", <<"v">>, <<"-", <<"E">>, <<"X">>>>>>,
  <<"det", <<"*", <<"X">>, <<"E">>>>>>,
  <<"m/s", <<"e">>, <<"LogM", <<"X">>>>>>,
  <<"+", <<"E">>, <<"s-m", <<"v">>, <<"X">>>>>>,
  <<"m+s", <<"p">>, <<"s+m", <<"v">>, <<"S">>>>>>,
  <<"vec", <<"SinM", <<"S">>>>>>,
  <<"ExpM", <<"m-s", <<"v">>, <<"X">>>>>>,
  <<"CosM", <<"m*s", <<"p">>, <<"X">>>>>>,
  <<"^", <<"SigmoidM", <<"X">>>>, <<"X">>>>,
  <<"-", <<"E">>, <<"SqrtM", <<"X">>>>>>,
  <<"SqrtM", <<"vec", <<"X">>>>>>,
  <<"m+s", <<"t">>, <<"^", <<"X">>, <<"X">>>>>>,
  <<"s*m", <<"t">>, <<"m/s", <<"p">>, <<"E">>>>>>,
  <<"SigmoidM", <<"TanhM", <<"X">>>>>>,
  <<"m-s", <<"e">>, <<"CubeM", <<"S">>>>>>,
  <<"m*s", <<"e">>, <<"m+s", <<"p">>, <<"X">>>>>>,
  <<"SinM", <<"CosM", <<"X">>>>>>,
  <<"CosM", <<"TanhM", <<"S">>>>>>,
  <<"CosM", <<"SigmoidM", <<"X">>>>>>,
  <<"m*s", <<"p">>, <<"det", <<"X">>>>>>,
  <<"^", <<"-", <<"X">>, <<"T">>>>, <<"P">>>>,
  <<"s-m", <<"p">>, <<"s+m", <<"t">>, <<"X">>>>>>,
  <<"inv", <<"m+s", <<"p">>, <<"S">>>>>>,
  <<"s*m", <<"t">>, <<"SigmoidM", <<"X">>>>>>,
  <<"TanhM", <<"-", <<"S">>, <<"X">>>>>>,
  <<"^", <<"CosM", <<"X">>>>, <<"P">>>>,
  <<"TanhM", <<"m*s", <<"e">>, <<"E">>>>>>,
  <<"LogM", <<"SigmoidM", <<"S">>>>>>,
  <<"s*m", <<"t">>, <<"CosM", <<"X">>>>>>,
  <<"s*m", <<"e">>, <<"SqrtM", <<"X">>>>>>,
  <<"CubeM", <<"vec", <<"X">>>>>>,
  <<"CosM", <<"m/s", <<"t">>, <<"X">>>>>>,
  <<"*", <<"TanhM", <<"X">>>>, <<"T">>>>,
  <<"TanhM", <<"+", <<"X">>, <<"X">>>>>>,
  <<"ExpM", <<"*", <<"E">>, <<"X">>>>>>,
  <<"s+m", <<"v">>, <<"SqrtM", <<"S">>>>>>,
  <<"SigmoidM", <<"m-s", <<"e">>, <<"S">>>>>>,
  <<"m/s", <<"v">>, <<"CubeM", <<"X">>>>>>,
  <<"*", <<"det", <<"X">>>>, <<"E">>>>,
  <<"det", <<"det", <<"X">>>>>>,
  <<"^", <<"ExpM", <<"X">>>>, <<"X">>>>,
  <<"m-s", <<"e">>, <<"TanhM", <<"X">>>>>>,
  <<"m/s", <<"v">>, <<"s-m", <<"t">>, <<"X">>>>>>,
  <<"+", <<"tr", <<"X">>>>, <<"T">>>>,
  <<"m-s", <<"t">>, <<"CosM", <<"X">>>>>>,
  <<"SqrtM", <<"m/s", <<"p">>, <<"S">>>>>>,
  <<"s*m", <<"e">>, <<"det", <<"S">>>>>>,
  <<"SinM", <<"SigmoidM", <<"S">>>>>>,
  <<"s-m", <<"v">>, <<"m-s", <<"e">>, <<"X">>>>>>,
  <<"CubeM", <<"det", <<"X">>>>>>,
  <<"SigmoidM", <<"^", <<"X">>, <<"X">>>>>>,
  <<"inv", <<"SqrtM", <<"S">>>>>>,
  <<"vec", <<"m*s", <<"t">>, <<"E">>>>>>,
  <<"s-m", <<"v">>, <<"TanhM", <<"X">>>>>>,
  <<"SinM", <<"vec", <<"X">>>>>>,
  <<"CosM", <<"s-m", <<"t">>, <<"X">>>>>>,
  <<"-", <<"X">>, <<"s*m", <<"t">>, <<"S">>>>>>,
  <<"-", <<"m/s", <<"v">>, <<"E">>>>, <<"P">>>>,
  <<"vec", <<"LogM", <<"S">>>>>>,
  <<"SinM", <<"tr", <<"E">>>>>>,
  <<"m/s", <<"v">>, <<"inv", <<"S">>>>>>,
  <<"s-m", <<"t">>, <<"+", <<"E">>, <<"X">>>>>>,
  <<"CubeM", <<"s*m", <<"p">>, <<"X">>>>>>,
  <<"LogM", <<"CosM", <<"E">>>>>>,
  <<"-", <<"inv", <<"S">>>>, <<"E">>>>,
  <<"m/s", <<"t">>, <<"^", <<"S">>, <<"T">>>>>>,
  <<"ExpM", <<"ExpM", <<"E">>>>>>,
  <<"CubeM", <<"s-m", <<"v">>, <<"X">>>>>>,
  <<"SigmoidM", <<"s+m", <<"t">>, <<"X">>>>>>,
  <<"det", <<"m+s", <<"v">>, <<"X">>>>>>,
  <<"m-s", <<"p">>, <<"LogM", <<"X">>>>>>,
  <<"SinM", <<"m/s", <<"p">>, <<"X">>>>>>,
  <<"m-s", <<"e">>, <<"det", <<"X">>>>>>,
  <<"TanhM", <<"CubeM", <<"S">>>>>>,
  <<"LogM", <<"s+m", <<"p">>, <<"X">>>>>>,
  <<"ExpM", <<"det", <<"X">>>>>>,
  <<"inv", <<"ExpM", <<"X">>>>>>,
  <<"inv", <<"m*s", <<"t">>, <<"X">>>>>>,
  <<"ExpM", <<"+", <<"X">>, <<"X">>>>>>,
  <<"-", <<"T">>, <<"CosM", <<"X">>>>>>,
  <<"vec", <<"TanhM", <<"X">>>>>>,
  <<"+", <<"TanhM", <<"E">>>>, <<"X">>>>,
  <<"m*s", <<"e">>, <<"s*m", <<"e">>, <<"S">>>>>>,
  <<"m/s", <<"t">>, <<"TanhM", <<"E">>>>>>,
  <<"^", <<"X">>, <<"s*m", <<"t">>, <<"E">>>>>>,
  <<"TanhM", <<"^", <<"E">>, <<"X">>>>>>,
  <<"CosM", <<"SqrtM", <<"X">>>>>>,
  <<"^", <<"X">>, <<"SinM", <<"E">>>>>>,
  <<"m*s", <<"t">>, <<"m-s", <<"v">>, <<"X">>>>>>,
  <<"tr", <<"m*s", <<"t">>, <<"X">>>>>>,
  <<"CubeM", <<"*", <<"X">>, <<"E">>>>>>,
  <<"-", <<"vec", <<"X">>>>, <<"X">>>>,
  <<"det", <<"inv", <<"X">>>>>>,
  <<"s-m", <<"v">>, <<"m*s", <<"t">>, <<"X">>>>>>,
  <<"m*s", <<"t">>, <<"CubeM", <<"X">>>>>>,
  <<"CosM", <<"m+s", <<"t">>, <<"X">>>>>>,
  <<"m-s", <<"p">>, <<"vec", <<"S">>>>>>,
  <<"SqrtM", <<"tr", <<"X">>>>>>,
  <<"tr", <<"+", <<"E">>, <<"S">>>>>>,
  <<"tr", <<"SinM", <<"X">>>>>>,
  <<"TanhM", <<"CosM", <<"E">>>>>>,
  <<"inv", <<"LogM", <<"X">>>>>>,
  <<"-", <<"LogM", <<"X">>>>, <<"X">>>>,
  <<"m+s", <<"t">>, <<"m*s", <<"t">>, <<"X">>>>>>,
  <<"ExpM", <<"s*m", <<"p">>, <<"E">>>>>>,
  <<"SinM", <<"inv", <<"X">>>>>>,
  <<"SigmoidM", <<"SqrtM", <<"X">>>>>>,
  <<"CubeM", <<"tr", <<"X">>>>>>,
  <<"m+s", <<"p">>, <<"inv", <<"X">>>>>>,
  <<"s-m", <<"p">>, <<"SinM", <<"X">>>>>>,
  <<"s*m", <<"t">>, <<"-", <<"T">>, <<"X">>>>>>,
  <<"m/s", <<"p">>, <<"*", <<"X">>, <<"X">>>>>>,
  <<"TanhM", <<"inv", <<"X">>>>>>,
  <<"det", <<"+", <<"S">>, <<"X">>>>>>,
  <<"m/s", <<"e">>, <<"s*m", <<"p">>, <<"S">>>>>>,
  <<"s-m", <<"t">>, <<"CubeM", <<"X">>>>>>,
  <<"ExpM", <<"s-m", <<"e">>, <<"X">>>>>>,
  <<"m*s", <<"t">>, <<"tr", <<"E">>>>>>,
  <<"tr", <<"SqrtM", <<"X">>>>>>,
  <<"SinM", <<"^", <<"T">>, <<"S">>>>>>,
  <<"tr", <<"-", <<"X">>, <<"E">>>>>>,
  <<"s+m", <<"v">>, <<"det", <<"S">>>>>>,
  <<"det", <<"ExpM", <<"X">>>>>>,
  <<"-", <<"m-s", <<"p">>, <<"X">>>>, <<"P">>>>,
  <<"inv", <<"inv", <<"X">>>>>>,
  <<"-", <<"m*s", <<"p">>, <<"X">>>>, <<"E">>>>,
  <<"SinM", <<"SqrtM", <<"X">>>>>>,
  <<"inv", <<"s+m", <<"e">>, <<"X">>>>>>,
  <<"*", <<"^", <<"T">>, <<"E">>>>, <<"P">>>>,
  <<"s*m", <<"v">>, <<"s-m", <<"p">>, <<"S">>>>>>,
  <<"s+m", <<"v">>, <<"s+m", <<"p">>, <<"X">>>>>>,
  <<"vec", <<"m+s", <<"e">>, <<"X">>>>>>,
  <<"CubeM", <<"-", <<"X">>, <<"S">>>>>>,
  <<"inv", <<"SigmoidM", <<"X">>>>>>,
  <<"*", <<"T">>, <<"s-m", <<"e">>, <<"S">>>>>>,
  <<"CubeM", <<"ExpM", <<"X">>>>>>,
  <<"SinM", <<"s+m", <<"t">>, <<"E">>>>>>,
  <<"LogM", <<"^", <<"T">>, <<"S">>>>>>,
  <<"inv", <<"m/s", <<"t">>, <<"E">>>>>>,
  <<"s-m", <<"p">>, <<"SqrtM", <<"X">>>>>>,
  <<"inv", <<"CosM", <<"X">>>>>>,
  <<"CubeM", <<"SinM", <<"X">>>>>>,
  <<"inv", <<"+", <<"X">>, <<"T">>>>>>,
  <<"^", <<"X">>, <<"s+m", <<"v">>, <<"E">>>>>>,
  <<"LogM", <<"SinM", <<"E">>>>>>,
  <<"inv", <<"TanhM", <<"X">>>>>>,
  <<"m+s", <<"t">>, <<"SigmoidM", <<"S">>>>>>,
  <<"*", <<"-", <<"X">>, <<"E">>>>, <<"X">>>>,
  <<"m*s", <<"p">>, <<"SqrtM", <<"E">>>>>>,
  <<"*", <<"s+m", <<"v">>, <<"E">>>>, <<"T">>>>,
  <<"ExpM", <<"SinM", <<"S">>>>>>,
  <<"*", <<"ExpM", <<"X">>>>, <<"E">>>>,
  <<"m*s", <<"v">>, <<"SigmoidM", <<"X">>>>>>,
  <<"m+s", <<"p">>, <<"tr", <<"X">>>>>>,
  <<"*", <<"vec", <<"S">>>>, <<"X">>>>,
  <<"LogM", <<"TanhM", <<"X">>>>>>,
  <<"s+m", <<"p">>, <<"+", <<"S">>, <<"X">>>>>>,
  <<"m/s", <<"v">>, <<"CosM", <<"X">>>>>>,
  <<"^", <<"*", <<"X">>, <<"X">>>>, <<"X">>>>,
  <<"LogM", <<"vec", <<"X">>>>>>,
  <<"SqrtM", <<"m-s", <<"t">>, <<"X">>>>>>,
  <<"^", <<"SqrtM", <<"E">>>>, <<"X">>>>,
  <<"sigA", <<"^", <<"T">>, <<"+", <<"X">>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"+", <<"X">>, <<"T">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"+", <<"X">>, <<"P">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"+", <<"X">>, <<"E">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"+", <<"T">>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"+", <<"T">>, <<"E">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"+", <<"P">>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"+", <<"E">>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"+", <<"E">>, <<"T">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"+", <<"E">>, <<"E">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"-", <<"X">>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"-", <<"X">>, <<"T">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"-", <<"X">>, <<"P">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"-", <<"X">>, <<"E">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"-", <<"T">>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"-", <<"T">>, <<"E">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"-", <<"P">>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"-", <<"E">>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"-", <<"E">>, <<"T">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"-", <<"E">>, <<"E">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"*", <<"X">>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"*", <<"X">>, <<"T">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"*", <<"X">>, <<"P">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"*", <<"X">>, <<"E">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"*", <<"T">>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"*", <<"T">>, <<"E">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"*", <<"P">>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"*", <<"E">>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"*", <<"E">>, <<"T">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"*", <<"E">>, <<"E">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"^", <<"X">>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"^", <<"X">>, <<"T">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"^", <<"X">>, <<"P">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"^", <<"X">>, <<"E">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"^", <<"T">>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"^", <<"T">>, <<"E">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"^", <<"P">>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"^", <<"E">>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"^", <<"E">>, <<"T">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"^", <<"E">>, <<"E">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s+m", <<"t">>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s+m", <<"t">>, <<"E">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s+m", <<"v">>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s+m", <<"v">>, <<"E">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s+m", <<"p">>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s+m", <<"p">>, <<"E">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m+s", <<"t">>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m+s", <<"t">>, <<"E">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m+s", <<"v">>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m+s", <<"v">>, <<"E">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m+s", <<"p">>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m+s", <<"p">>, <<"E">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s-m", <<"t">>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s-m", <<"t">>, <<"E">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s-m", <<"v">>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s-m", <<"v">>, <<"E">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s-m", <<"p">>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s-m", <<"p">>, <<"E">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m-s", <<"t">>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m-s", <<"t">>, <<"E">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m-s", <<"v">>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m-s", <<"v">>, <<"E">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m-s", <<"p">>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m-s", <<"p">>, <<"E">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s*m", <<"t">>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s*m", <<"t">>, <<"E">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s*m", <<"v">>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s*m", <<"v">>, <<"E">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s*m", <<"p">>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s*m", <<"p">>, <<"E">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m*s", <<"t">>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m*s", <<"t">>, <<"E">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m*s", <<"v">>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m*s", <<"v">>, <<"E">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m*s", <<"p">>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m*s", <<"p">>, <<"E">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m/s", <<"t">>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m/s", <<"t">>, <<"E">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m/s", <<"v">>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m/s", <<"v">>, <<"E">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m/s", <<"p">>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m/s", <<"p">>, <<"E">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s+m", <<"e">>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m+s", <<"e">>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s-m", <<"e">>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m-s", <<"e">>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s*m", <<"e">>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m*s", <<"e">>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m/s", <<"e">>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"tr", <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"tr", <<"E">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"inv", <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"inv", <<"E">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"det", <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"vec", <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"vec", <<"E">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SinM", <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SinM", <<"E">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"CosM", <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"CosM", <<"E">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"ExpM", <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"ExpM", <<"E">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"LogM", <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"LogM", <<"E">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SqrtM", <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SqrtM", <<"E">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"TanhM", <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"TanhM", <<"E">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SigmoidM", <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SigmoidM", <<"E">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"CubeM", <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"CubeM", <<"E">>>>>>>>,
  <<"sigA", <<"X">>>>,
  <<"trace", <<"X">>>>,
  <<"frob", <<"X">>>>,
  <<"sigA", <<"*", <<"X">>, <<"X">>>>>>,
  <<"+", <<"sigA", <<"X">>>>, <<"E">>>>,
  <<"*", <<"E">>, <<"trace", <<"X">>>>>>,
  <<"+", <<"*", <<"E">>, <<"E">>>>, <<"E">>>>,
  <<"sigA", <<"^", <<"T">>, <<"CosM", <<"m-s", <<"v">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m+s", <<"v">>, <<"ExpM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"det", <<"vec", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s-m", <<"p">>, <<"s+m", <<"p">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m+s", <<"t">>, <<"SinM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s+m", <<"p">>, <<"s*m", <<"t">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s+m", <<"v">>, <<"SigmoidM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"TanhM", <<"-", <<"X">>, <<"T">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"det", <<"det", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m+s", <<"t">>, <<"s*m", <<"p">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m*s", <<"t">>, <<"CosM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SinM", <<"s+m", <<"t">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"CubeM", <<"tr", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s-m", <<"p">>, <<"m*s", <<"v">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"*", <<"SqrtM", <<"X">>>>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"inv", <<"m/s", <<"t">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"-", <<"SqrtM", <<"X">>>>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m*s", <<"v">>, <<"s-m", <<"v">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"-", <<"m/s", <<"t">>, <<"X">>>>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"LogM", <<"m+s", <<"v">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m-s", <<"t">>, <<"+", <<"X">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"vec", <<"SinM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"vec", <<"tr", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"^", <<"X">>, <<"vec", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"CosM", <<"s*m", <<"v">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"LogM", <<"+", <<"T">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s-m", <<"p">>, <<"tr", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"tr", <<"ExpM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"inv", <<"s-m", <<"t">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SigmoidM", <<"CubeM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"ExpM", <<"SigmoidM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SigmoidM", <<"m+s", <<"t">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m*s", <<"t">>, <<"SigmoidM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"inv", <<"SinM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"*", <<"SigmoidM", <<"X">>>>, <<"T">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"CosM", <<"vec", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"inv", <<"^", <<"T">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"^", <<"X">>, <<"s-m", <<"t">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m+s", <<"v">>, <<"-", <<"X">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m+s", <<"p">>, <<"^", <<"X">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"CosM", <<"CosM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"TanhM", <<"TanhM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s+m", <<"t">>, <<"m+s", <<"t">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m-s", <<"p">>, <<"*", <<"X">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SinM", <<"CosM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s-m", <<"v">>, <<"m/s", <<"t">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"TanhM", <<"det", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SinM", <<"m-s", <<"t">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"-", <<"X">>, <<"CubeM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"-", <<"P">>, <<"LogM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"det", <<"s-m", <<"t">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s-m", <<"t">>, <<"m-s", <<"t">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m/s", <<"p">>, <<"SqrtM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"*", <<"CubeM", <<"X">>>>, <<"P">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SqrtM", <<"SqrtM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"inv", <<"m-s", <<"t">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s*m", <<"v">>, <<"*", <<"X">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"^", <<"-", <<"T">>, <<"X">>>>, <<"P">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s-m", <<"t">>, <<"+", <<"X">>, <<"T">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SqrtM", <<"m+s", <<"t">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"TanhM", <<"s*m", <<"t">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s-m", <<"t">>, <<"SigmoidM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m/s", <<"t">>, <<"vec", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"*", <<"SinM", <<"X">>>>, <<"T">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m/s", <<"v">>, <<"s+m", <<"p">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"+", <<"P">>, <<"TanhM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SigmoidM", <<"-", <<"X">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"tr", <<"s*m", <<"v">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"CosM", <<"+", <<"X">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"vec", <<"ExpM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SinM", <<"ExpM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"*", <<"m/s", <<"p">>, <<"X">>>>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s-m", <<"t">>, <<"SinM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SigmoidM", <<"det", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m*s", <<"v">>, <<"-", <<"T">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"ExpM", <<"inv", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"CubeM", <<"-", <<"X">>, <<"T">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s*m", <<"t">>, <<"s-m", <<"v">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"det", <<"^", <<"X">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"inv", <<"inv", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SigmoidM", <<"SigmoidM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"LogM", <<"det", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"det", <<"m-s", <<"t">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"^", <<"TanhM", <<"X">>>>, <<"P">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SigmoidM", <<"s+m", <<"v">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"TanhM", <<"m+s", <<"t">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"+", <<"X">>, <<"s+m", <<"t">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"LogM", <<"s*m", <<"p">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s*m", <<"t">>, <<"SqrtM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m+s", <<"v">>, <<"m-s", <<"v">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"*", <<"X">>, <<"inv", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"CubeM", <<"inv", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m*s", <<"v">>, <<"SinM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"inv", <<"m*s", <<"v">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SqrtM", <<"CubeM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"CosM", <<"TanhM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m-s", <<"v">>, <<"LogM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s*m", <<"p">>, <<"inv", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"+", <<"LogM", <<"X">>>>, <<"T">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"LogM", <<"vec", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"^", <<"CubeM", <<"X">>>>, <<"T">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"inv", <<"+", <<"X">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"CubeM", <<"m*s", <<"v">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"tr", <<"SqrtM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"ExpM", <<"-", <<"X">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"tr", <<"s-m", <<"p">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"det", <<"m*s", <<"t">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m/s", <<"t">>, <<"tr", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"*", <<"tr", <<"X">>>>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"ExpM", <<"*", <<"X">>, <<"T">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"TanhM", <<"vec", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"LogM", <<"*", <<"X">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s-m", <<"p">>, <<"TanhM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SigmoidM", <<"TanhM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"vec", <<"^", <<"X">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"+", <<"CosM", <<"X">>>>, <<"P">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"CubeM", <<"s+m", <<"p">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"det", <<"s*m", <<"p">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"LogM", <<"-", <<"X">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s*m", <<"t">>, <<"^", <<"T">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"inv", <<"SqrtM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"CosM", <<"m/s", <<"v">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"tr", <<"det", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m/s", <<"t">>, <<"+", <<"X">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s*m", <<"t">>, <<"s+m", <<"p">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"+", <<"X">>, <<"+", <<"X">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"CosM", <<"SigmoidM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m+s", <<"v">>, <<"CubeM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"tr", <<"tr", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m-s", <<"v">>, <<"m/s", <<"t">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m+s", <<"v">>, <<"m+s", <<"p">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m-s", <<"v">>, <<"det", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"-", <<"P">>, <<"^", <<"X">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s+m", <<"p">>, <<"det", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m/s", <<"p">>, <<"m+s", <<"t">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"-", <<"CosM", <<"X">>>>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s+m", <<"t">>, <<"m-s", <<"t">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m*s", <<"v">>, <<"m+s", <<"t">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"+", <<"X">>, <<"ExpM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"CosM", <<"det", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"ExpM", <<"s+m", <<"t">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m-s", <<"t">>, <<"inv", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SigmoidM", <<"^", <<"X">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m-s", <<"p">>, <<"m*s", <<"p">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"TanhM", <<"tr", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m+s", <<"t">>, <<"inv", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m*s", <<"v">>, <<"SqrtM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s-m", <<"t">>, <<"s-m", <<"t">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s+m", <<"t">>, <<"LogM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SqrtM", <<"SinM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"CubeM", <<"m+s", <<"v">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SqrtM", <<"TanhM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"tr", <<"m+s", <<"v">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"*", <<"-", <<"X">>, <<"X">>>>, <<"P">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"^", <<"X">>, <<"s*m", <<"t">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"CosM", <<"^", <<"X">>, <<"T">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"vec", <<"SigmoidM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"^", <<"X">>, <<"m/s", <<"v">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"CosM", <<"*", <<"T">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"ExpM", <<"CosM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"tr", <<"SigmoidM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m-s", <<"v">>, <<"s+m", <<"p">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"det", <<"LogM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"+", <<"m*s", <<"v">>, <<"X">>>>, <<"T">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SigmoidM", <<"inv", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"-", <<"X">>, <<"*", <<"T">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"-", <<"T">>, <<"SigmoidM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"ExpM", <<"CubeM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SinM", <<"s-m", <<"v">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s*m", <<"t">>, <<"ExpM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"tr", <<"SinM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SqrtM", <<"-", <<"X">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"+", <<"SigmoidM", <<"X">>>>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"det", <<"SigmoidM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m-s", <<"t">>, <<"tr", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"tr", <<"^", <<"X">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"-", <<"P">>, <<"vec", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s-m", <<"t">>, <<"SqrtM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s+m", <<"p">>, <<"s+m", <<"t">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s-m", <<"v">>, <<"LogM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s*m", <<"v">>, <<"m/s", <<"p">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m*s", <<"t">>, <<"m/s", <<"p">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"+", <<"SinM", <<"X">>>>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"inv", <<"vec", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"vec", <<"m-s", <<"t">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SqrtM", <<"vec", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"tr", <<"s+m", <<"t">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"CubeM", <<"^", <<"X">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"vec", <<"CubeM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"-", <<"s+m", <<"p">>, <<"X">>>>, <<"T">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"ExpM", <<"^", <<"X">>, <<"T">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s*m", <<"p">>, <<"vec", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"CubeM", <<"m/s", <<"t">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s-m", <<"t">>, <<"s*m", <<"t">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s-m", <<"p">>, <<"-", <<"X">>, <<"T">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"vec", <<"LogM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"CubeM", <<"m-s", <<"v">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SigmoidM", <<"m/s", <<"p">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"LogM", <<"SinM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"tr", <<"m-s", <<"p">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"+", <<"X">>, <<"CubeM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m-s", <<"p">>, <<"-", <<"T">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"det", <<"CosM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"CosM", <<"LogM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"^", <<"m-s", <<"v">>, <<"X">>>>, <<"P">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"LogM", <<"CosM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"^", <<"inv", <<"X">>>>, <<"T">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"*", <<"P">>, <<"^", <<"X">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"tr", <<"CubeM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"-", <<"X">>, <<"m-s", <<"v">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s*m", <<"v">>, <<"LogM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"LogM", <<"s-m", <<"p">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SqrtM", <<"s-m", <<"v">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"*", <<"s-m", <<"v">>, <<"X">>>>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"^", <<"T">>, <<"SqrtM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SinM", <<"^", <<"T">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"^", <<"+", <<"T">>, <<"X">>>>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"ExpM", <<"m/s", <<"p">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"det", <<"*", <<"X">>, <<"T">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s+m", <<"p">>, <<"tr", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"LogM", <<"m*s", <<"v">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m*s", <<"t">>, <<"LogM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"^", <<"T">>, <<"SigmoidM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"inv", <<"CosM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SinM", <<"LogM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SinM", <<"vec", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"+", <<"P">>, <<"det", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"CosM", <<"s-m", <<"v">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SinM", <<"m*s", <<"p">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"ExpM", <<"tr", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SinM", <<"s*m", <<"t">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SigmoidM", <<"s*m", <<"t">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"CubeM", <<"*", <<"T">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"*", <<"X">>, <<"m-s", <<"v">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"ExpM", <<"SqrtM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"LogM", <<"ExpM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s-m", <<"v">>, <<"^", <<"X">>, <<"T">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m+s", <<"v">>, <<"SqrtM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SqrtM", <<"^", <<"X">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m+s", <<"v">>, <<"s-m", <<"v">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"^", <<"P">>, <<"LogM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"CubeM", <<"TanhM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m-s", <<"p">>, <<"m-s", <<"v">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SigmoidM", <<"SinM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"-", <<"-", <<"T">>, <<"X">>>>, <<"T">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"^", <<"ExpM", <<"X">>>>, <<"P">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"-", <<"m*s", <<"p">>, <<"X">>>>, <<"T">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"TanhM", <<"inv", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"CubeM", <<"SigmoidM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"vec", <<"TanhM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SqrtM", <<"+", <<"X">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"LogM", <<"s+m", <<"v">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"det", <<"ExpM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m*s", <<"v">>, <<"CubeM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s*m", <<"v">>, <<"m*s", <<"p">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"vec", <<"vec", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"inv", <<"m+s", <<"v">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"*", <<"*", <<"T">>, <<"X">>>>, <<"T">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m-s", <<"p">>, <<"s*m", <<"t">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"-", <<"X">>, <<"+", <<"X">>, <<"T">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SqrtM", <<"CosM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"+", <<"vec", <<"X">>>>, <<"T">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s*m", <<"t">>, <<"+", <<"T">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"TanhM", <<"ExpM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"ExpM", <<"+", <<"T">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"TanhM", <<"*", <<"T">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"TanhM", <<"LogM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s*m", <<"t">>, <<"m-s", <<"p">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m/s", <<"v">>, <<"s*m", <<"t">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s-m", <<"t">>, <<"det", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"tr", <<"-", <<"X">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"det", <<"+", <<"X">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"CubeM", <<"s*m", <<"p">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"LogM", <<"LogM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"+", <<"X">>, <<"^", <<"T">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"CosM", <<"s+m", <<"p">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"tr", <<"*", <<"T">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m+s", <<"p">>, <<"tr", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m/s", <<"p">>, <<"SigmoidM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"det", <<"tr", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"TanhM", <<"m*s", <<"v">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SqrtM", <<"LogM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SinM", <<"SinM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m/s", <<"t">>, <<"CubeM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m/s", <<"v">>, <<"inv", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"vec", <<"-", <<"X">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"CubeM", <<"+", <<"X">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"ExpM", <<"det", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SigmoidM", <<"tr", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"*", <<"X">>, <<"vec", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"inv", <<"s*m", <<"t">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"*", <<"T">>, <<"det", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m*s", <<"p">>, <<"ExpM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"-", <<"X">>, <<"ExpM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"TanhM", <<"+", <<"T">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"CubeM", <<"CosM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"tr", <<"+", <<"X">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s+m", <<"t">>, <<"m*s", <<"t">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s-m", <<"p">>, <<"vec", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SinM", <<"tr", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"*", <<"X">>, <<"+", <<"T">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"^", <<"CosM", <<"X">>>>, <<"T">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"tr", <<"TanhM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s*m", <<"t">>, <<"CubeM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s+m", <<"v">>, <<"vec", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"vec", <<"s*m", <<"t">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m-s", <<"p">>, <<"CosM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m/s", <<"v">>, <<"-", <<"X">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SinM", <<"-", <<"X">>, <<"T">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m+s", <<"t">>, <<"s+m", <<"p">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"^", <<"X">>, <<"s+m", <<"t">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"inv", <<"TanhM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"LogM", <<"inv", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"det", <<"inv", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"LogM", <<"SigmoidM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"CosM", <<"SqrtM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"-", <<"det", <<"X">>>>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"ExpM", <<"LogM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SqrtM", <<"s+m", <<"t">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"+", <<"P">>, <<"m-s", <<"v">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"TanhM", <<"SigmoidM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m-s", <<"p">>, <<"SinM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"tr", <<"LogM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"^", <<"*", <<"X">>, <<"T">>>>, <<"P">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m-s", <<"t">>, <<"m+s", <<"t">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"inv", <<"det", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SinM", <<"m/s", <<"t">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"-", <<"s-m", <<"v">>, <<"X">>>>, <<"T">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s*m", <<"p">>, <<"det", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"CosM", <<"inv", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"^", <<"P">>, <<"m*s", <<"t">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s*m", <<"p">>, <<"-", <<"X">>, <<"T">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"-", <<"P">>, <<"TanhM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"ExpM", <<"s*m", <<"v">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"det", <<"TanhM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m*s", <<"t">>, <<"inv", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m/s", <<"v">>, <<"LogM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m/s", <<"t">>, <<"SinM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m-s", <<"v">>, <<"^", <<"T">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s-m", <<"t">>, <<"CosM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SqrtM", <<"m-s", <<"v">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m+s", <<"t">>, <<"m/s", <<"t">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m-s", <<"t">>, <<"CubeM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s-m", <<"t">>, <<"m+s", <<"v">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"+", <<"X">>, <<"-", <<"T">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m/s", <<"v">>, <<"CosM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s+m", <<"p">>, <<"^", <<"X">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m*s", <<"v">>, <<"tr", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"CubeM", <<"det", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s*m", <<"v">>, <<"s*m", <<"p">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m+s", <<"p">>, <<"SigmoidM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"TanhM", <<"SqrtM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m-s", <<"v">>, <<"TanhM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"LogM", <<"m-s", <<"p">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"*", <<"P">>, <<"LogM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"vec", <<"m/s", <<"p">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"CubeM", <<"SqrtM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s-m", <<"v">>, <<"inv", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m/s", <<"t">>, <<"m*s", <<"p">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"CubeM", <<"vec", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"LogM", <<"^", <<"X">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SigmoidM", <<"s-m", <<"p">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"CosM", <<"ExpM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"^", <<"X">>, <<"m+s", <<"v">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m+s", <<"v">>, <<"+", <<"X">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"CubeM", <<"SinM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"TanhM", <<"CosM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m/s", <<"t">>, <<"m/s", <<"p">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s+m", <<"p">>, <<"s-m", <<"v">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"vec", <<"*", <<"X">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"-", <<"T">>, <<"inv", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"*", <<"TanhM", <<"X">>>>, <<"T">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"^", <<"SinM", <<"X">>>>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s+m", <<"v">>, <<"CosM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m/s", <<"v">>, <<"s-m", <<"v">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"ExpM", <<"SinM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s+m", <<"p">>, <<"TanhM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"tr", <<"CosM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s*m", <<"t">>, <<"SigmoidM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"ExpM", <<"TanhM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s-m", <<"p">>, <<"ExpM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s+m", <<"p">>, <<"CubeM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"*", <<"m*s", <<"v">>, <<"X">>>>, <<"P">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m+s", <<"v">>, <<"TanhM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"inv", <<"SigmoidM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m-s", <<"t">>, <<"SqrtM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SqrtM", <<"tr", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SinM", <<"inv", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"TanhM", <<"m/s", <<"t">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SigmoidM", <<"m*s", <<"p">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"TanhM", <<"s-m", <<"t">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"-", <<"SinM", <<"X">>>>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"+", <<"s-m", <<"p">>, <<"X">>>>, <<"T">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"-", <<"T">>, <<"s*m", <<"t">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"TanhM", <<"^", <<"X">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s*m", <<"v">>, <<"tr", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s-m", <<"p">>, <<"*", <<"X">>, <<"T">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m+s", <<"p">>, <<"vec", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"-", <<"m+s", <<"v">>, <<"X">>>>, <<"T">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"vec", <<"s+m", <<"t">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m-s", <<"p">>, <<"SigmoidM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"det", <<"SinM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"CosM", <<"m+s", <<"t">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"*", <<"CosM", <<"X">>>>, <<"T">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"CosM", <<"CubeM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"tr", <<"m/s", <<"v">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"CubeM", <<"LogM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s+m", <<"p">>, <<"*", <<"T">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SinM", <<"m+s", <<"p">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s+m", <<"p">>, <<"SinM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"LogM", <<"m/s", <<"t">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SigmoidM", <<"SqrtM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m*s", <<"p">>, <<"^", <<"T">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m-s", <<"p">>, <<"vec", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"tr", <<"vec", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s*m", <<"v">>, <<"m+s", <<"p">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"ExpM", <<"vec", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"vec", <<"m+s", <<"t">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"+", <<"s*m", <<"p">>, <<"X">>>>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"tr", <<"m*s", <<"v">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m/s", <<"p">>, <<"det", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SinM", <<"CubeM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s+m", <<"t">>, <<"inv", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"inv", <<"-", <<"X">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SqrtM", <<"ExpM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"inv", <<"LogM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"*", <<"m+s", <<"t">>, <<"X">>>>, <<"T">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m-s", <<"t">>, <<"ExpM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SigmoidM", <<"*", <<"X">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s+m", <<"p">>, <<"m/s", <<"t">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SigmoidM", <<"ExpM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SinM", <<"SigmoidM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"^", <<"det", <<"X">>>>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"CubeM", <<"ExpM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"inv", <<"*", <<"T">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"TanhM", <<"m-s", <<"p">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"+", <<"SqrtM", <<"X">>>>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"*", <<"s*m", <<"p">>, <<"X">>>>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m/s", <<"v">>, <<"TanhM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"LogM", <<"tr", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s*m", <<"p">>, <<"SinM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"+", <<"P">>, <<"m+s", <<"t">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"ExpM", <<"m-s", <<"t">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m-s", <<"t">>, <<"s-m", <<"p">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"vec", <<"det", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s+m", <<"t">>, <<"-", <<"T">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SqrtM", <<"m*s", <<"t">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"vec", <<"CosM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SinM", <<"+", <<"X">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"tr", <<"inv", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m*s", <<"t">>, <<"*", <<"X">>, <<"T">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SqrtM", <<"*", <<"X">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"det", <<"SqrtM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"+", <<"m/s", <<"v">>, <<"X">>>>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m/s", <<"t">>, <<"^", <<"X">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m/s", <<"v">>, <<"ExpM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m*s", <<"p">>, <<"m*s", <<"t">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"LogM", <<"TanhM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m+s", <<"p">>, <<"det", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"^", <<"tr", <<"X">>>>, <<"P">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"vec", <<"+", <<"T">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SinM", <<"SqrtM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SinM", <<"TanhM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s*m", <<"t">>, <<"TanhM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"ExpM", <<"m*s", <<"v">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SigmoidM", <<"LogM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m*s", <<"p">>, <<"m-s", <<"v">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SqrtM", <<"SigmoidM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"*", <<"s+m", <<"p">>, <<"X">>>>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"TanhM", <<"CubeM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"det", <<"CubeM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m+s", <<"t">>, <<"LogM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s-m", <<"v">>, <<"CubeM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m*s", <<"v">>, <<"vec", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m/s", <<"p">>, <<"*", <<"X">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"*", <<"X">>, <<"ExpM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SigmoidM", <<"+", <<"X">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s+m", <<"t">>, <<"+", <<"X">>, <<"T">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SinM", <<"*", <<"X">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SigmoidM", <<"m-s", <<"t">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SigmoidM", <<"CosM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"inv", <<"CubeM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SigmoidM", <<"vec", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"vec", <<"s-m", <<"v">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"ExpM", <<"m+s", <<"t">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SqrtM", <<"inv", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SqrtM", <<"det", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"vec", <<"inv", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"CosM", <<"-", <<"T">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"vec", <<"SqrtM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m+s", <<"v">>, <<"*", <<"T">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"LogM", <<"SqrtM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m*s", <<"p">>, <<"s*m", <<"t">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"vec", <<"m*s", <<"p">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"CosM", <<"SinM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"det", <<"-", <<"X">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"inv", <<"ExpM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SinM", <<"det", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m*s", <<"p">>, <<"det", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"LogM", <<"CubeM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"TanhM", <<"s+m", <<"t">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m+s", <<"t">>, <<"m*s", <<"v">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"CosM", <<"tr", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"+", <<"*", <<"X">>, <<"X">>>>, <<"P">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m*s", <<"t">>, <<"+", <<"X">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"CosM", <<"m*s", <<"p">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"CubeM", <<"CubeM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m+s", <<"v">>, <<"CosM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"^", <<"^", <<"X">>, <<"X">>>>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"+", <<"tr", <<"X">>>>, <<"T">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m/s", <<"p">>, <<"m-s", <<"t">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"det", <<"s+m", <<"p">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"CubeM", <<"s-m", <<"p">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m*s", <<"t">>, <<"TanhM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SqrtM", <<"m/s", <<"p">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"ExpM", <<"ExpM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"+", <<"inv", <<"X">>>>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"-", <<"X">>, <<"tr", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"TanhM", <<"SinM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"ExpM", <<"s-m", <<"p">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"m*s", <<"p">>, <<"s+m", <<"v">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"inv", <<"tr", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s+m", <<"p">>, <<"ExpM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s+m", <<"v">>, <<"SqrtM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"s*m", <<"p">>, <<"CosM", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"inv", <<"s+m", <<"p">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SqrtM", <<"s*m", <<"v">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"det", <<"m+s", <<"p">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"det", <<"m/s", <<"t">>, <<"X">>>>>>>>>>,
  <<"sigR", <<"X">>>>,
  <<"sigR", <<"E">>>>,
  <<"sigC", <<"X">>>>,
  <<"sigC", <<"E">>>>,
  <<"sigA", <<"E">>>>,
  <<"trace", <<"E">>>>,
  <<"frob", <<"E">>>>,
  <<"smR", <<"X">>>>,
  <<"smR", <<"E">>>>,
  <<"smC", <<"X">>>>,
  <<"smC", <<"E">>>>,
  <<"smA", <<"X">>>>,
  <<"smA", <<"E">>>>,
  <<"pow2", <<"X">>>>,
  <<"pow2", <<"E">>>>,
  <<"pow3", <<"X">>>>,
  <<"pow3", <<"E">>>>,
  <<"mexp3", <<"X">>>>,
  <<"mexp3", <<"E">>>>,
  <<"mlog2", <<"X">>>>,
  <<"mlog2", <<"E">>>>,
  <<"bcR", <<"X">>>>,
  <<"bcR", <<"E">>>>,
  <<"bcC", <<"X">>>>,
  <<"bcC", <<"E">>>>,
  <<"bcA", <<"X">>>>,
  <<"bcA", <<"E">>>>,
  <<"pow0", <<"X">>>>,
  <<"pow1", <<"X">>>>,
  <<"mexp2", <<"E">>>>,
  <<"mlog3", <<"X">>>>,
  <<"bcR", <<"T">>>>,
  <<"sigA", <<"S">>>>,
  <<"smR", <<"T">>>>,
  <<"%", <<"X">>, <<"X">>>>,
  <<"%", <<"X">>, <<"T">>>>,
  <<"%", <<"X">>, <<"E">>>>,
  <<"%", <<"T">>, <<"X">>>>,
  <<"%", <<"T">>, <<"E">>>>,
  <<"%", <<"E">>, <<"X">>>>,
  <<"%", <<"E">>, <<"T">>>>,
  <<"%", <<"E">>, <<"E">>>>,
  <<"./", <<"X">>, <<"X">>>>,
  <<"./", <<"X">>, <<"T">>>>,
  <<"./", <<"X">>, <<"E">>>>,
  <<"./", <<"T">>, <<"X">>>>,
  <<"./", <<"T">>, <<"E">>>>,
  <<"./", <<"E">>, <<"X">>>>,
  <<"./", <<"E">>, <<"T">>>>,
  <<"./", <<"E">>, <<"E">>>>,
  <<"catv", <<"X">>, <<"X">>>>,
  <<"catv", <<"X">>, <<"T">>>>,
  <<"catv", <<"X">>, <<"E">>>>,
  <<"catv", <<"T">>, <<"X">>>>,
  <<"catv", <<"T">>, <<"E">>>>,
  <<"catv", <<"E">>, <<"X">>>>,
  <<"catv", <<"E">>, <<"T">>>>,
  <<"catv", <<"E">>, <<"E">>>>,
  <<"cath", <<"X">>, <<"X">>>>,
  <<"cath", <<"X">>, <<"T">>>>,
  <<"cath", <<"X">>, <<"E">>>>,
  <<"cath", <<"T">>, <<"X">>>>,
  <<"cath", <<"T">>, <<"E">>>>,
  <<"cath", <<"E">>, <<"X">>>>,
  <<"cath", <<"E">>, <<"T">>>>,
  <<"cath", <<"E">>, <<"E">>>>,
  <<"sigA", <<"^", <<"X">>, <<"X">>>>>>,
  <<"SinM", <<"sigR", <<"X">>>>>>,
  <<"*", <<"smC", <<"X">>>>, <<"X">>>>,
  <<"trace", <<"*", <<"X">>, <<"T">>>>>>,
  <<"+", <<"bcC", <<"X">>>>, <<"X">>>>,
  <<"^", <<"catv", <<"X">>, <<"X">>>>, <<"T">>>>,
  <<"frob", <<"-", <<"X">>, <<"T">>>>>>,
  <<"pow2", <<"+", <<"X">>, <<"T">>>>>>,
  <<"smR", <<"*", <<"T">>, <<"X">>>>>>,
  <<"tr", <<"cath", <<"X">>, <<"T">>>>>>,
  <<"inv", <<"pow2", <<"X">>>>>>,
  <<"%", <<"T">>, <<"*", <<"X">>, <<"X">>>>>>,
  <<"./", <<"X">>, <<"ExpM", <<"X">>>>>>,
  <<"sigC", <<"smA", <<"X">>>>>>,
  <<"vec", <<"catv", <<"X">>, <<"T">>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"sigR", <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"sigC", <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"smR", <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"smC", <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"smA", <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"pow2", <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"pow3", <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"mexp3", <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"mlog2", <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"bcR", <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"bcC", <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"bcA", <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"%", <<"X">>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"%", <<"X">>, <<"T">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"%", <<"T">>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"./", <<"X">>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"./", <<"X">>, <<"T">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"./", <<"T">>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"catv", <<"X">>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"catv", <<"X">>, <<"T">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"catv", <<"T">>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"cath", <<"X">>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"cath", <<"X">>, <<"T">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"cath", <<"T">>, <<"X">>>>>>>>,
  <<"frob", <<"-", <<"*", <<"T">>, <<"X">>>>, <<"T">>>>>>,
  <<"trace", <<"*", <<"X">>, <<"X">>>>>>,
  <<"sigA", <<"smR", <<"*", <<"T">>, <<"X">>>>>>>>,
  <<"det", <<"*", <<"X">>, <<"T">>>>>>,
  <<"trace", <<"inv", <<"X">>>>>>,
  <<"trace", <<"pow2", <<"X">>>>>>,
  <<"sigA", <<"./", <<"T">>, <<"X">>>>>>,
  <<"sigA", <<"sigR", <<"X">>>>>>,
  <<"frob", <<"catv", <<"X">>, <<"X">>>>>>,
  <<"conv", <<"X">>, <<"X">>>>,
  <<"conv", <<"X">>, <<"T">>>>,
  <<"conv", <<"X">>, <<"E">>>>,
  <<"conv", <<"T">>, <<"X">>>>,
  <<"conv", <<"T">>, <<"E">>>>,
  <<"conv", <<"E">>, <<"X">>>>,
  <<"conv", <<"E">>, <<"T">>>>,
  <<"conv", <<"E">>, <<"E">>>>,
  <<"conv", <<"S">>, <<"X">>>>,
  <<"conv", <<"P">>, <<"X">>>>,
  <<"conv", <<"X">>, <<"P">>>>,
  <<"SinM", <<"conv", <<"X">>, <<"T">>>>>>,
  <<"conv", <<"*", <<"X">>, <<"T">>>>, <<"T">>>>,
  <<"conv", <<"X">>, <<"^", <<"X">>, <<"X">>>>>>,
  <<"+", <<"conv", <<"X">>, <<"X">>>>, <<"T">>>>,
  <<"conv", <<"conv", <<"X">>, <<"T">>>>, <<"T">>>>,
  <<"conv", <<"SinM", <<"X">>>>, <<"X">>>>,
  <<"tr", <<"conv", <<"X">>, <<"X">>>>>>,
  <<"conv", <<"T">>, <<"tr", <<"X">>>>>>,
  <<"s*m", <<"v">>, <<"conv", <<"X">>, <<"X">>>>>>,
  <<"sigA", <<"conv", <<"X">>, <<"X">>>>>>,
  <<"^", <<"conv", <<"X">>, <<"T">>>>, <<"conv", <<"X">>, <<"T">>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"conv", <<"X">>, <<"T">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"conv", <<"T">>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"conv", <<"X">>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"conv", <<"X">>, <<"P">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"SinM", <<"conv", <<"X">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"conv", <<"SinM", <<"X">>>>, <<"T">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"conv", <<"X">>, <<"tr", <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"conv", <<"*", <<"X">>, <<"T">>>>, <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"conv", <<"conv", <<"X">>, <<"T">>>>, <<"X">>>>>>>>,
  <<"ReLUM", <<"X">>>>,
  <<"ReLUM", <<"E">>>>,
  <<"ReLUM", <<"T">>>>,
  <<"LeakyReLUM", <<"X">>>>,
  <<"LeakyReLUM", <<"E">>>>,
  <<"LeakyReLUM", <<"T">>>>,
  <<"AbsM", <<"X">>>>,
  <<"AbsM", <<"E">>>>,
  <<"AbsM", <<"T">>>>,
  <<"*", <<"T">>, <<"ReLUM", <<"X">>>>>>,
  <<"ReLUM", <<"*", <<"T">>, <<"X">>>>>>,
  <<"AbsM", <<"-", <<"X">>, <<"T">>>>>>,
  <<"LeakyReLUM", <<"+", <<"*", <<"T">>, <<"X">>>>, <<"X">>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"ReLUM", <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"LeakyReLUM", <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"AbsM", <<"X">>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"ReLUM", <<"*", <<"T">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"^", <<"T">>, <<"LeakyReLUM", <<"*", <<"T">>, <<"X">>>>>>>>>>,
  <<"sigA", <<"AbsM", <<"-", <<"X">>, <<"T">>>>>>>>,
  <<"+", <<"^", <<"E">>, <<"T">>>>, <<"X">>>>,
  <<"+", <<"E">>, <<"SinM", <<"E">>>>>>,
  <<"SinM", <<"*", <<"T">>, <<"E">>>>>>,
  <<"-", <<"*", <<"E">>, <<"T">>>>, <<"E">>>>,
  <<"*", <<"S">>, <<"S">>>>,
  <<"det", <<"S">>>>,
  <<"s*m", <<"v">>, <<"*", <<"X">>, <<"X">>>>>>,
  <<"m+s", <<"e">>, <<"*", <<"X">>, <<"T">>>>>>,
  <<"s-m", <<"v">>, <<"SinM", <<"X">>>>>>,
  <<"m/s", <<"e">>, <<"^", <<"X">>, <<"X">>>>>>,
  <<"*", <<"X">>, <<"s*m", <<"v">>, <<"X">>>>>>,
  <<"SinM", <<"s*m", <<"e">>, <<"X">>>>>>,
  <<"s*m", <<"v">>, <<"s*m", <<"v">>, <<"X">>>>>>,
  <<"+", <<"s*m", <<"v">>, <<"X">>>>, <<"m+s", <<"v">>, <<"X">>>>>>
>>
=============================================================================
