------------------------------- MODULE Shapes -------------------------------
(* Generated by lib/shapes.py: the expression shapes that are built as one  *)
(* C++ expression (V variable, P parameter, E expression, T, I constants).   *)
NRecShape == 259
NQuickShape == 355
Shapes == <<
  <<"sin", <<"V">>>>,
  <<"sin", <<"P">>>>,
  <<"sin", <<"E">>>>,
  <<"cos", <<"V">>>>,
  <<"cos", <<"P">>>>,
  <<"cos", <<"E">>>>,
  <<"tan", <<"V">>>>,
  <<"tan", <<"P">>>>,
  <<"tan", <<"E">>>>,
  <<"sinh", <<"V">>>>,
  <<"sinh", <<"P">>>>,
  <<"sinh", <<"E">>>>,
  <<"cosh", <<"V">>>>,
  <<"cosh", <<"P">>>>,
  <<"cosh", <<"E">>>>,
  <<"tanh", <<"V">>>>,
  <<"tanh", <<"P">>>>,
  <<"tanh", <<"E">>>>,
  <<"asin", <<"V">>>>,
  <<"asin", <<"P">>>>,
  <<"asin", <<"E">>>>,
  <<"acos", <<"V">>>>,
  <<"acos", <<"P">>>>,
  <<"acos", <<"E">>>>,
  <<"atan", <<"V">>>>,
  <<"atan", <<"P">>>>,
  <<"atan", <<"E">>>>,
  <<"asinh", <<"V">>>>,
  <<"asinh", <<"P">>>>,
  <<"asinh", <<"E">>>>,
  <<"acosh", <<"V">>>>,
  <<"acosh", <<"P">>>>,
  <<"acosh", <<"E">>>>,
  <<"atanh", <<"V">>>>,
  <<"atanh", <<"P">>>>,
  <<"atanh", <<"E">>>>,
  <<"exp", <<"V">>>>,
  <<"exp", <<"P">>>>,
  <<"exp", <<"E">>>>,
  <<"log", <<"V">>>>,
  <<"log", <<"P">>>>,
  <<"log", <<"E">>>>,
  <<"sqrt", <<"V">>>>,
  <<"sqrt", <<"P">>>>,
  <<"sqrt", <<"E">>>>,
  <<"neg", <<"V">>>>,
  <<"neg", <<"P">>>>,
  <<"neg", <<"E">>>>,
  <<"+", <<"V">>, <<"V">>>>,
  <<"+", <<"V">>, <<"P">>>>,
  <<"+", <<"V">>, <<"E">>>>,
  <<"+", <<"V">>, <<"T">>>>,
  <<"+", <<"V">>, <<"I">>>>,
  <<"+", <<"P">>, <<"V">>>>,
  <<"+", <<"P">>, <<"P">>>>,
  <<"+", <<"P">>, <<"E">>>>,
  <<"+", <<"P">>, <<"T">>>>,
  <<"+", <<"P">>, <<"I">>>>,
  <<"+", <<"E">>, <<"V">>>>,
  <<"+", <<"E">>, <<"P">>>>,
  <<"+", <<"E">>, <<"E">>>>,
  <<"+", <<"E">>, <<"T">>>>,
  <<"+", <<"E">>, <<"I">>>>,
  <<"+", <<"T">>, <<"V">>>>,
  <<"+", <<"T">>, <<"P">>>>,
  <<"+", <<"T">>, <<"E">>>>,
  <<"+", <<"I">>, <<"V">>>>,
  <<"+", <<"I">>, <<"P">>>>,
  <<"+", <<"I">>, <<"E">>>>,
  <<"-", <<"V">>, <<"V">>>>,
  <<"-", <<"V">>, <<"P">>>>,
  <<"-", <<"V">>, <<"E">>>>,
  <<"-", <<"V">>, <<"T">>>>,
  <<"-", <<"V">>, <<"I">>>>,
  <<"-", <<"P">>, <<"V">>>>,
  <<"-", <<"P">>, <<"P">>>>,
  <<"-", <<"P">>, <<"E">>>>,
  <<"-", <<"P">>, <<"T">>>>,
  <<"-", <<"P">>, <<"I">>>>,
  <<"-", <<"E">>, <<"V">>>>,
  <<"-", <<"E">>, <<"P">>>>,
  <<"-", <<"E">>, <<"E">>>>,
  <<"-", <<"E">>, <<"T">>>>,
  <<"-", <<"E">>, <<"I">>>>,
  <<"-", <<"T">>, <<"V">>>>,
  <<"-", <<"T">>, <<"P">>>>,
  <<"-", <<"T">>, <<"E">>>>,
  <<"-", <<"I">>, <<"V">>>>,
  <<"-", <<"I">>, <<"P">>>>,
  <<"-", <<"I">>, <<"E">>>>,
  <<"*", <<"V">>, <<"V">>>>,
  <<"*", <<"V">>, <<"P">>>>,
  <<"*", <<"V">>, <<"E">>>>,
  <<"*", <<"V">>, <<"T">>>>,
  <<"*", <<"V">>, <<"I">>>>,
  <<"*", <<"P">>, <<"V">>>>,
  <<"*", <<"P">>, <<"P">>>>,
  <<"*", <<"P">>, <<"E">>>>,
  <<"*", <<"P">>, <<"T">>>>,
  <<"*", <<"P">>, <<"I">>>>,
  <<"*", <<"E">>, <<"V">>>>,
  <<"*", <<"E">>, <<"P">>>>,
  <<"*", <<"E">>, <<"E">>>>,
  <<"*", <<"E">>, <<"T">>>>,
  <<"*", <<"E">>, <<"I">>>>,
  <<"*", <<"T">>, <<"V">>>>,
  <<"*", <<"T">>, <<"P">>>>,
  <<"*", <<"T">>, <<"E">>>>,
  <<"*", <<"I">>, <<"V">>>>,
  <<"*", <<"I">>, <<"P">>>>,
  <<"*", <<"I">>, <<"E">>>>,
  <<"/", <<"V">>, <<"V">>>>,
  <<"/", <<"V">>, <<"P">>>>,
  <<"/", <<"V">>, <<"E">>>>,
  <<"/", <<"V">>, <<"T">>>>,
  <<"/", <<"V">>, <<"I">>>>,
  <<"/", <<"P">>, <<"V">>>>,
  <<"/", <<"P">>, <<"P">>>>,
  <<"/", <<"P">>, <<"E">>>>,
  <<"/", <<"P">>, <<"T">>>>,
  <<"/", <<"P">>, <<"I">>>>,
  <<"/", <<"E">>, <<"V">>>>,
  <<"/", <<"E">>, <<"P">>>>,
  <<"/", <<"E">>, <<"E">>>>,
  <<"/", <<"E">>, <<"T">>>>,
  <<"/", <<"E">>, <<"I">>>>,
  <<"/", <<"T">>, <<"V">>>>,
  <<"/", <<"T">>, <<"P">>>>,
  <<"/", <<"T">>, <<"E">>>>,
  <<"/", <<"I">>, <<"V">>>>,
  <<"/", <<"I">>, <<"P">>>>,
  <<"/", <<"I">>, <<"E">>>>,
  <<"^", <<"V">>, <<"V">>>>,
  <<"^", <<"V">>, <<"P">>>>,
  <<"^", <<"V">>, <<"E">>>>,
  <<"^", <<"V">>, <<"T">>>>,
  <<"^", <<"V">>, <<"I">>>>,
  <<"^", <<"P">>, <<"V">>>>,
  <<"^", <<"P">>, <<"P">>>>,
  <<"^", <<"P">>, <<"E">>>>,
  <<"^", <<"P">>, <<"T">>>>,
  <<"^", <<"P">>, <<"I">>>>,
  <<"^", <<"E">>, <<"V">>>>,
  <<"^", <<"E">>, <<"P">>>>,
  <<"^", <<"E">>, <<"E">>>>,
  <<"^", <<"E">>, <<"T">>>>,
  <<"^", <<"E">>, <<"I">>>>,
  <<"^", <<"T">>, <<"V">>>>,
  <<"^", <<"T">>, <<"P">>>>,
  <<"^", <<"T">>, <<"E">>>>,
  <<"^", <<"I">>, <<"V">>>>,
  <<"^", <<"I">>, <<"P">>>>,
  <<"^", <<"I">>, <<"E">>>>,
  <<"SinS", <<"V">>>>,
  <<"SinS", <<"E">>>>,
  <<"SinS", <<"P">>>>,
  <<"CosS", <<"V">>>>,
  <<"CosS", <<"E">>>>,
  <<"CosS", <<"P">>>>,
  <<"CubeS", <<"V">>>>,
  <<"CubeS", <<"E">>>>,
  <<"CubeS", <<"P">>>>,
  <<"ProductS", <<"V">>, <<"V">>>>,
  <<"ProductS", <<"V">>, <<"E">>>>,
  <<"ProductS", <<"V">>, <<"P">>>>,
  <<"ProductS", <<"E">>, <<"V">>>>,
  <<"ProductS", <<"E">>, <<"E">>>>,
  <<"ProductS", <<"E">>, <<"P">>>>,
  <<"ProductS", <<"P">>, <<"V">>>>,
  <<"ProductS", <<"P">>, <<"E">>>>,
  <<"ProductS", <<"P">>, <<"P">>>>,
  <<"MixS", <<"V">>, <<"V">>>>,
  <<"MixS", <<"V">>, <<"E">>>>,
  <<"MixS", <<"V">>, <<"P">>>>,
  <<"MixS", <<"E">>, <<"V">>>>,
  <<"MixS", <<"E">>, <<"E">>>>,
  <<"MixS", <<"E">>, <<"P">>>>,
  <<"MixS", <<"P">>, <<"V">>>>,
  <<"MixS", <<"P">>, <<"E">>>>,
  <<"MixS", <<"P">>, <<"P">>>>,
  <<"+", <<"+", <<"E">>, <<"V">>>>, <<"V">>>>,
  <<"+", <<"V">>, <<"sin", <<"E">>>>>>,
  <<"+", <<"sin", <<"E">>>>, <<"P">>>>,
  <<"+", <<"P">>, <<"*", <<"E">>, <<"P">>>>>>,
  <<"+", <<"*", <<"E">>, <<"P">>>>, <<"T">>>>,
  <<"+", <<"T">>, <<"-", <<"V">>, <<"E">>>>>>,
  <<"+", <<"-", <<"V">>, <<"E">>>>, <<"I">>>>,
  <<"+", <<"I">>, <<"+", <<"E">>, <<"V">>>>>>,
  <<"-", <<"+", <<"E">>, <<"V">>>>, <<"V">>>>,
  <<"-", <<"V">>, <<"sin", <<"E">>>>>>,
  <<"-", <<"sin", <<"E">>>>, <<"P">>>>,
  <<"-", <<"P">>, <<"*", <<"E">>, <<"P">>>>>>,
  <<"-", <<"*", <<"E">>, <<"P">>>>, <<"T">>>>,
  <<"-", <<"T">>, <<"-", <<"V">>, <<"E">>>>>>,
  <<"-", <<"-", <<"V">>, <<"E">>>>, <<"I">>>>,
  <<"-", <<"I">>, <<"+", <<"E">>, <<"V">>>>>>,
  <<"*", <<"+", <<"E">>, <<"V">>>>, <<"V">>>>,
  <<"*", <<"V">>, <<"sin", <<"E">>>>>>,
  <<"*", <<"sin", <<"E">>>>, <<"P">>>>,
  <<"*", <<"P">>, <<"*", <<"E">>, <<"P">>>>>>,
  <<"*", <<"*", <<"E">>, <<"P">>>>, <<"T">>>>,
  <<"*", <<"T">>, <<"-", <<"V">>, <<"E">>>>>>,
  <<"*", <<"-", <<"V">>, <<"E">>>>, <<"I">>>>,
  <<"*", <<"I">>, <<"+", <<"E">>, <<"V">>>>>>,
  <<"/", <<"+", <<"E">>, <<"V">>>>, <<"V">>>>,
  <<"/", <<"V">>, <<"sin", <<"E">>>>>>,
  <<"/", <<"sin", <<"E">>>>, <<"P">>>>,
  <<"/", <<"P">>, <<"*", <<"E">>, <<"P">>>>>>,
  <<"/", <<"*", <<"E">>, <<"P">>>>, <<"T">>>>,
  <<"/", <<"T">>, <<"-", <<"V">>, <<"E">>>>>>,
  <<"/", <<"-", <<"V">>, <<"E">>>>, <<"I">>>>,
  <<"/", <<"I">>, <<"+", <<"E">>, <<"V">>>>>>,
  <<"^", <<"+", <<"E">>, <<"V">>>>, <<"V">>>>,
  <<"^", <<"V">>, <<"sin", <<"E">>>>>>,
  <<"^", <<"sin", <<"E">>>>, <<"P">>>>,
  <<"^", <<"P">>, <<"*", <<"E">>, <<"P">>>>>>,
  <<"^", <<"*", <<"E">>, <<"P">>>>, <<"T">>>>,
  <<"^", <<"T">>, <<"-", <<"V">>, <<"E">>>>>>,
  <<"^", <<"-", <<"V">>, <<"E">>>>, <<"I">>>>,
  <<"^", <<"I">>, <<"+", <<"E">>, <<"V">>>>>>,
  <<"ProductS", <<"+", <<"E">>, <<"V">>>>, <<"V">>>>,
  <<"ProductS", <<"V">>, <<"sin", <<"E">>>>>>,
  <<"ProductS", <<"sin", <<"E">>>>, <<"P">>>>,
  <<"ProductS", <<"P">>, <<"*", <<"E">>, <<"P">>>>>>,
  <<"MixS", <<"*", <<"E">>, <<"P">>>>, <<"V">>>>,
  <<"MixS", <<"V">>, <<"-", <<"V">>, <<"E">>>>>>,
  <<"MixS", <<"-", <<"V">>, <<"E">>>>, <<"P">>>>,
  <<"MixS", <<"P">>, <<"+", <<"E">>, <<"V">>>>>>,
  <<"sin", <<"+", <<"E">>, <<"V">>>>>>,
  <<"cos", <<"sin", <<"E">>>>>>,
  <<"tan", <<"*", <<"E">>, <<"P">>>>>>,
  <<"sinh", <<"-", <<"V">>, <<"E">>>>>>,
  <<"cosh", <<"+", <<"E">>, <<"V">>>>>>,
  <<"tanh", <<"sin", <<"E">>>>>>,
  <<"asin", <<"*", <<"E">>, <<"P">>>>>>,
  <<"acos", <<"-", <<"V">>, <<"E">>>>>>,
  <<"atan", <<"+", <<"E">>, <<"V">>>>>>,
  <<"asinh", <<"sin", <<"E">>>>>>,
  <<"acosh", <<"*", <<"E">>, <<"P">>>>>>,
  <<"atanh", <<"-", <<"V">>, <<"E">>>>>>,
  <<"exp", <<"+", <<"E">>, <<"V">>>>>>,
  <<"log", <<"sin", <<"E">>>>>>,
  <<"sqrt", <<"*", <<"E">>, <<"P">>>>>>,
  <<"neg", <<"-", <<"V">>, <<"E">>>>>>,
  <<"SinS", <<"+", <<"E">>, <<"V">>>>>>,
  <<"CosS", <<"sin", <<"E">>>>>>,
  <<"CubeS", <<"*", <<"E">>, <<"P">>>>>>,
  <<"+", <<"*", <<"E">>, <<"E">>>>, <<"E">>>>,
  <<"+", <<"*", <<"E">>, <<"T">>>>, <<"E">>>>,
  <<"*", <<"+", <<"E">>, <<"V">>>>, <<"E">>>>,
  <<"+", <<"*", <<"V">>, <<"E">>>>, <<"V">>>>,
  <<"-", <<"V">>, <<"*", <<"E">>, <<"E">>>>>>,
  <<"neg", <<"*", <<"E">>, <<"E">>>>>>,
  <<"+", <<"*", <<"E">>, <<"T">>>>, <<"V">>>>,
  <<"+", <<"*", <<"P">>, <<"E">>>>, <<"P">>>>,
  <<"sin", <<"+", <<"E">>, <<"E">>>>>>,
  <<"*", <<"sin", <<"E">>>>, <<"E">>>>,
  <<"+", <<"sin", <<"E">>>>, <<"cos", <<"E">>>>>>,
  <<"+", <<"E">>, <<"*", <<"E">>, <<"V">>>>>>,
  <<"sin", <<"acos", <<"P">>>>>>,
  <<"*", <<"*", <<"-", <<"T">>, <<"V">>>>, <<"exp", <<"E">>>>>>, <<"P">>>>,
  <<"cos", <<"/", <<"I">>, <<"V">>>>>>,
  <<"sin", <<"/", <<"-", <<"E">>, <<"E">>>>, <<"acos", <<"V">>>>>>>>,
  <<"atanh", <<"cosh", <<"P">>>>>>,
  <<"exp", <<"/", <<"-", <<"E">>, <<"E">>>>, <<"sinh", <<"V">>>>>>>>,
  <<"^", <<"cosh", <<"P">>>>, <<"V">>>>,
  <<"sin", <<"-", <<"*", <<"T">>, <<"V">>>>, <<"sinh", <<"E">>>>>>>>,
  <<"+", <<"acosh", <<"V">>>>, <<"V">>>>,
  <<"tanh", <<"*", <<"*", <<"V">>, <<"E">>>>, <<"sinh", <<"E">>>>>>>>,
  <<"-", <<"asin", <<"V">>>>, <<"E">>>>,
  <<"+", <<"+", <<"/", <<"V">>, <<"T">>>>, <<"+", <<"E">>, <<"I">>>>>>, <<"P">>>>,
  <<"+", <<"cosh", <<"E">>>>, <<"T">>>>,
  <<"-", <<"exp", <<"V">>>>, <<"sqrt", <<"V">>>>>>,
  <<"atan", <<"*", <<"E">>, <<"I">>>>>>,
  <<"tanh", <<"/", <<"acos", <<"E">>>>, <<"^", <<"T">>, <<"V">>>>>>>>,
  <<"-", <<"P">>, <<"log", <<"V">>>>>>,
  <<"+", <<"+", <<"sqrt", <<"V">>>>, <<"cos", <<"P">>>>>>, <<"E">>>>,
  <<"tan", <<"tan", <<"V">>>>>>,
  <<"/", <<"+", <<"P">>, <<"V">>>>, <<"/", <<"I">>, <<"P">>>>>>,
  <<"*", <<"V">>, <<"cosh", <<"V">>>>>>,
  <<"/", <<"acos", <<"E">>>>, <<"*", <<"E">>, <<"V">>>>>>,
  <<"^", <<"-", <<"T">>, <<"V">>>>, <<"V">>>>,
  <<"+", <<"+", <<"I">>, <<"P">>>>, <<"asin", <<"E">>>>>>,
  <<"acosh", <<"acosh", <<"V">>>>>>,
  <<"sin", <<"+", <<"asinh", <<"V">>>>, <<"cosh", <<"V">>>>>>>>,
  <<"/", <<"ProductS", <<"V">>, <<"E">>>>, <<"I">>>>,
  <<"+", <<"+", <<"V">>, <<"V">>>>, <<"sinh", <<"V">>>>>>,
  <<"sin", <<"-", <<"V">>, <<"I">>>>>>,
  <<"+", <<"acos", <<"P">>>>, <<"atan", <<"E">>>>>>,
  <<"*", <<"V">>, <<"sinh", <<"V">>>>>>,
  <<"sin", <<"*", <<"atan", <<"V">>>>, <<"^", <<"P">>, <<"V">>>>>>>>,
  <<"^", <<"neg", <<"V">>>>, <<"P">>>>,
  <<"tanh", <<"+", <<"sinh", <<"V">>>>, <<"*", <<"E">>, <<"P">>>>>>>>,
  <<"neg", <<"acosh", <<"V">>>>>>,
  <<"-", <<"acosh", <<"P">>>>, <<"cos", <<"E">>>>>>,
  <<"ProductS", <<"+", <<"P">>, <<"P">>>>, <<"V">>>>,
  <<"+", <<"/", <<"cosh", <<"E">>>>, <<"sqrt", <<"P">>>>>>, <<"E">>>>,
  <<"+", <<"neg", <<"V">>>>, <<"sqrt", <<"V">>>>>>,
  <<"+", <<"sin", <<"E">>>>, <<"T">>>>,
  <<"-", <<"sinh", <<"P">>>>, <<"-", <<"T">>, <<"P">>>>>>,
  <<"MixS", <<"E">>, <<"cos", <<"V">>>>>>,
  <<"/", <<"atanh", <<"P">>>>, <<"*", <<"V">>, <<"I">>>>>>,
  <<"SinS", <<"asinh", <<"V">>>>>>,
  <<"-", <<"*", <<"E">>, <<"V">>>>, <<"cosh", <<"E">>>>>>,
  <<"cosh", <<"-", <<"E">>, <<"V">>>>>>,
  <<"+", <<"acosh", <<"P">>>>, <<"tanh", <<"V">>>>>>,
  <<"/", <<"E">>, <<"acos", <<"P">>>>>>,
  <<"/", <<"sqrt", <<"P">>>>, <<"acos", <<"E">>>>>>,
  <<"tanh", <<"*", <<"I">>, <<"V">>>>>>,
  <<"/", <<"sqrt", <<"V">>>>, <<"acos", <<"V">>>>>>,
  <<"sqrt", <<"+", <<"E">>, <<"E">>>>>>,
  <<"+", <<"-", <<"/", <<"V">>, <<"T">>>>, <<"atanh", <<"V">>>>>>, <<"V">>>>,
  <<"sqrt", <<"atan", <<"P">>>>>>,
  <<"-", <<"+", <<"cosh", <<"V">>>>, <<"atanh", <<"V">>>>>>, <<"T">>>>,
  <<"*", <<"V">>, <<"-", <<"E">>, <<"T">>>>>>,
  <<"*", <<"sqrt", <<"V">>>>, <<"atan", <<"E">>>>>>,
  <<"CubeS", <<"acosh", <<"V">>>>>>,
  <<"*", <<"exp", <<"E">>>>, <<"asinh", <<"P">>>>>>,
  <<"/", <<"E">>, <<"SinS", <<"V">>>>>>,
  <<"-", <<"-", <<"^", <<"V">>, <<"E">>>>, <<"neg", <<"V">>>>>>, <<"P">>>>,
  <<"exp", <<"cosh", <<"V">>>>>>,
  <<"-", <<"-", <<"P">>, <<"V">>>>, <<"atanh", <<"E">>>>>>,
  <<"*", <<"T">>, <<"asin", <<"P">>>>>>,
  <<"*", <<"sin", <<"V">>>>, <<"^", <<"E">>, <<"E">>>>>>,
  <<"^", <<"asin", <<"E">>>>, <<"I">>>>,
  <<"-", <<"cos", <<"V">>>>, <<"/", <<"E">>, <<"V">>>>>>,
  <<"/", <<"CosS", <<"E">>>>, <<"V">>>>,
  <<"sin", <<"+", <<"^", <<"P">>, <<"E">>>>, <<"exp", <<"V">>>>>>>>,
  <<"-", <<"V">>, <<"ProductS", <<"E">>, <<"V">>>>>>,
  <<"+", <<"/", <<"E">>, <<"P">>>>, <<"*", <<"I">>, <<"V">>>>>>,
  <<"*", <<"I">>, <<"CubeS", <<"V">>>>>>,
  <<"sin", <<"*", <<"exp", <<"V">>>>, <<"+", <<"E">>, <<"E">>>>>>>>,
  <<"atanh", <<"acos", <<"V">>>>>>,
  <<"exp", <<"+", <<"sinh", <<"P">>>>, <<"/", <<"E">>, <<"E">>>>>>>>,
  <<"atanh", <<"sin", <<"V">>>>>>,
  <<"tanh", <<"-", <<"exp", <<"V">>>>, <<"exp", <<"E">>>>>>>>,
  <<"*", <<"acos", <<"E">>>>, <<"E">>>>,
  <<"+", <<"asinh", <<"V">>>>, <<"asin", <<"V">>>>>>,
  <<"/", <<"tan", <<"V">>>>, <<"V">>>>,
  <<"*", <<"+", <<"E">>, <<"V">>>>, <<"tan", <<"V">>>>>>,
  <<"^", <<"E">>, <<"+", <<"E">>, <<"V">>>>>>,
  <<"*", <<"/", <<"atan", <<"E">>>>, <<"*", <<"E">>, <<"P">>>>>>, <<"T">>>>,
  <<"-", <<"+", <<"E">>, <<"E">>>>, <<"V">>>>,
  <<"sin", <<"*", <<"log", <<"V">>>>, <<"*", <<"P">>, <<"I">>>>>>>>,
  <<"tanh", <<"-", <<"E">>, <<"V">>>>>>,
  <<"-", <<"^", <<"P">>, <<"T">>>>, <<"+", <<"P">>, <<"I">>>>>>,
  <<"atan", <<"+", <<"I">>, <<"E">>>>>>,
  <<"tanh", <<"-", <<"/", <<"E">>, <<"E">>>>, <<"/", <<"I">>, <<"E">>>>>>>>,
  <<"-", <<"E">>, <<"CosS", <<"E">>>>>>,
  <<"*", <<"+", <<"/", <<"V">>, <<"T">>>>, <<"sqrt", <<"E">>>>>>, <<"E">>>>,
  <<"log", <<"neg", <<"E">>>>>>,
  <<"*", <<"-", <<"V">>, <<"V">>>>, <<"-", <<"E">>, <<"P">>>>>>,
  <<"cosh", <<"*", <<"V">>, <<"I">>>>>>,
  <<"*", <<"tanh", <<"E">>>>, <<"tan", <<"V">>>>>>,
  <<"MixS", <<"P">>, <<"/", <<"V">>, <<"E">>>>>>,
  <<"*", <<"*", <<"sqrt", <<"V">>>>, <<"tanh", <<"P">>>>>>, <<"V">>>>,
  <<"/", <<"I">>, <<"-", <<"E">>, <<"V">>>>>>,
  <<"+", <<"+", <<"^", <<"E">>, <<"V">>>>, <<"+", <<"V">>, <<"T">>>>>>, <<"V">>>>,
  <<"sqrt", <<"log", <<"E">>>>>>,
  <<"neg", <<"*", <<"/", <<"I">>, <<"E">>>>, <<"sinh", <<"P">>>>>>>>,
  <<"acosh", <<"cosh", <<"V">>>>>>,
  <<"tanh", <<"+", <<"tanh", <<"E">>>>, <<"asinh", <<"P">>>>>>>>,
  <<"tanh", <<"asinh", <<"V">>>>>>,
  <<"+", <<"/", <<"-", <<"V">>, <<"V">>>>, <<"*", <<"T">>, <<"E">>>>>>, <<"V">>>>,
  <<"-", <<"E">>, <<"/", <<"V">>, <<"T">>>>>>,
  <<"+", <<"-", <<"P">>, <<"V">>>>, <<"cos", <<"V">>>>>>,
  <<"asinh", <<"tan", <<"V">>>>>>,
  <<"*", <<"cosh", <<"V">>>>, <<"sqrt", <<"P">>>>>>,
  <<"atanh", <<"*", <<"T">>, <<"V">>>>>>,
  <<"neg", <<"*", <<"*", <<"E">>, <<"I">>>>, <<"tan", <<"V">>>>>>>>,
  <<"sin", <<"asinh", <<"V">>>>>>,
  <<"tanh", <<"+", <<"/", <<"V">>, <<"T">>>>, <<"*", <<"E">>, <<"P">>>>>>>>,
  <<"sinh", <<"/", <<"V">>, <<"E">>>>>>,
  <<"+", <<"log", <<"V">>>>, <<"asinh", <<"V">>>>>>,
  <<"CosS", <<"^", <<"E">>, <<"I">>>>>>,
  <<"exp", <<"/", <<"*", <<"T">>, <<"P">>>>, <<"-", <<"I">>, <<"V">>>>>>>>,
  <<"atanh", <<"sqrt", <<"P">>>>>>,
  <<"*", <<"+", <<"tanh", <<"V">>>>, <<"exp", <<"V">>>>>>, <<"P">>>>,
  <<"ProductS", <<"-", <<"T">>, <<"E">>>>, <<"V">>>>,
  <<"^", <<"P">>, <<"MixS", <<"P">>, <<"V">>>>>>,
  <<"-", <<"E">>, <<"asin", <<"E">>>>>>,
  <<"exp", <<"cos", <<"V">>>>>>,
  <<"-", <<"atanh", <<"P">>>>, <<"T">>>>,
  <<"acos", <<"tan", <<"P">>>>>>,
  <<"exp", <<"+", <<"V">>, <<"T">>>>>>,
  <<"sinh", <<"tanh", <<"E">>>>>>,
  <<"neg", <<"/", <<"V">>, <<"P">>>>>>,
  <<"CubeS", <<"tan", <<"V">>>>>>,
  <<"cosh", <<"atanh", <<"V">>>>>>,
  <<"atanh", <<"asinh", <<"V">>>>>>,
  <<"log", <<"tanh", <<"P">>>>>>,
  <<"sinh", <<"+", <<"P">>, <<"E">>>>>>,
  <<"asinh", <<"tanh", <<"P">>>>>>,
  <<"SinS", <<"tan", <<"E">>>>>>,
  <<"acosh", <<"-", <<"E">>, <<"P">>>>>>,
  <<"CosS", <<"sinh", <<"E">>>>>>,
  <<"atan", <<"log", <<"E">>>>>>,
  <<"cosh", <<"acos", <<"V">>>>>>,
  <<"-", <<"*", <<"E">>, <<"T">>>>, <<"I">>>>,
  <<"cosh", <<"tan", <<"P">>>>>>,
  <<"sqrt", <<"acos", <<"E">>>>>>,
  <<"cosh", <<"^", <<"V">>, <<"V">>>>>>,
  <<"MixS", <<"tan", <<"E">>>>, <<"V">>>>,
  <<"acos", <<"asin", <<"E">>>>>>,
  <<"*", <<"T">>, <<"acos", <<"P">>>>>>,
  <<"acosh", <<"*", <<"E">>, <<"T">>>>>>,
  <<"sqrt", <<"^", <<"I">>, <<"V">>>>>>,
  <<"/", <<"E">>, <<"CosS", <<"E">>>>>>,
  <<"sinh", <<"tan", <<"V">>>>>>,
  <<"neg", <<"sqrt", <<"V">>>>>>,
  <<"exp", <<"sqrt", <<"V">>>>>>,
  <<"cos", <<"-", <<"E">>, <<"E">>>>>>,
  <<"tan", <<"log", <<"V">>>>>>,
  <<"*", <<"sin", <<"P">>>>, <<"T">>>>,
  <<"asinh", <<"log", <<"V">>>>>>,
  <<"tanh", <<"atan", <<"V">>>>>>,
  <<"+", <<"E">>, <<"cosh", <<"V">>>>>>,
  <<"*", <<"asinh", <<"E">>>>, <<"E">>>>,
  <<"^", <<"ProductS", <<"E">>, <<"E">>>>, <<"E">>>>,
  <<"acosh", <<"/", <<"E">>, <<"E">>>>>>,
  <<"+", <<"E">>, <<"neg", <<"E">>>>>>,
  <<"neg", <<"sinh", <<"V">>>>>>,
  <<"+", <<"E">>, <<"ProductS", <<"E">>, <<"E">>>>>>,
  <<"tanh", <<"^", <<"V">>, <<"P">>>>>>,
  <<"cosh", <<"log", <<"E">>>>>>,
  <<"*", <<"CubeS", <<"V">>>>, <<"E">>>>,
  <<"+", <<"V">>, <<"SinS", <<"E">>>>>>,
  <<"cosh", <<"tanh", <<"E">>>>>>,
  <<"acosh", <<"cos", <<"V">>>>>>,
  <<"CubeS", <<"sin", <<"E">>>>>>,
  <<"-", <<"I">>, <<"^", <<"P">>, <<"P">>>>>>,
  <<"*", <<"exp", <<"V">>>>, <<"E">>>>,
  <<"+", <<"E">>, <<"log", <<"E">>>>>>,
  <<"^", <<"I">>, <<"CubeS", <<"P">>>>>>,
  <<"/", <<"E">>, <<"ProductS", <<"P">>, <<"V">>>>>>,
  <<"neg", <<"log", <<"E">>>>>>,
  <<"atan", <<"neg", <<"V">>>>>>,
  <<"-", <<"E">>, <<"+", <<"E">>, <<"E">>>>>>,
  <<"^", <<"V">>, <<"sinh", <<"V">>>>>>,
  <<"^", <<"I">>, <<"atan", <<"E">>>>>>,
  <<"acos", <<"log", <<"V">>>>>>,
  <<"CosS", <<"sqrt", <<"V">>>>>>,
  <<"atanh", <<"log", <<"P">>>>>>,
  <<"sin", <<"tan", <<"V">>>>>>,
  <<"tan", <<"cos", <<"E">>>>>>,
  <<"^", <<"tan", <<"E">>>>, <<"V">>>>,
  <<"-", <<"cosh", <<"E">>>>, <<"V">>>>,
  <<"neg", <<"sin", <<"P">>>>>>,
  <<"*", <<"I">>, <<"+", <<"T">>, <<"V">>>>>>,
  <<"asin", <<"atanh", <<"P">>>>>>,
  <<"sin", <<"sin", <<"E">>>>>>,
  <<"log", <<"/", <<"E">>, <<"T">>>>>>,
  <<"*", <<"E">>, <<"atan", <<"E">>>>>>,
  <<"acos", <<"tanh", <<"P">>>>>>,
  <<"exp", <<"atan", <<"E">>>>>>,
  <<"/", <<"asinh", <<"P">>>>, <<"E">>>>,
  <<"exp", <<"*", <<"E">>, <<"T">>>>>>,
  <<"CubeS", <<"exp", <<"P">>>>>>,
  <<"CubeS", <<"acos", <<"V">>>>>>,
  <<"acos", <<"cosh", <<"V">>>>>>,
  <<"/", <<"V">>, <<"cosh", <<"E">>>>>>,
  <<"SinS", <<"sin", <<"V">>>>>>,
  <<"-", <<"T">>, <<"-", <<"I">>, <<"V">>>>>>,
  <<"CubeS", <<"sinh", <<"V">>>>>>,
  <<"^", <<"tanh", <<"V">>>>, <<"V">>>>,
  <<"/", <<"cosh", <<"E">>>>, <<"P">>>>,
  <<"sin", <<"atan", <<"V">>>>>>,
  <<"tanh", <<"/", <<"V">>, <<"T">>>>>>,
  <<"MixS", <<"sin", <<"V">>>>, <<"V">>>>,
  <<"acosh", <<"exp", <<"V">>>>>>,
  <<"log", <<"tan", <<"V">>>>>>,
  <<"/", <<"-", <<"V">>, <<"V">>>>, <<"V">>>>,
  <<"+", <<"atanh", <<"E">>>>, <<"E">>>>,
  <<"log", <<"cosh", <<"E">>>>>>,
  <<"tanh", <<"sinh", <<"V">>>>>>,
  <<"*", <<"acosh", <<"V">>>>, <<"V">>>>,
  <<"-", <<"P">>, <<"acos", <<"E">>>>>>,
  <<"CosS", <<"+", <<"V">>, <<"E">>>>>>,
  <<"log", <<"sin", <<"V">>>>>>,
  <<"atan", <<"acos", <<"V">>>>>>,
  <<"sinh", <<"cos", <<"V">>>>>>,
  <<"^", <<"exp", <<"V">>>>, <<"V">>>>,
  <<"ProductS", <<"*", <<"P">>, <<"E">>>>, <<"P">>>>,
  <<"+", <<"tan", <<"E">>>>, <<"V">>>>,
  <<"tanh", <<"acosh", <<"V">>>>>>,
  <<"*", <<"T">>, <<"SinS", <<"V">>>>>>,
  <<"atan", <<"sin", <<"E">>>>>>,
  <<"^", <<"acosh", <<"P">>>>, <<"P">>>>,
  <<"+", <<"V">>, <<"*", <<"T">>, <<"E">>>>>>,
  <<"CubeS", <<"atanh", <<"V">>>>>>,
  <<"sinh", <<"-", <<"T">>, <<"V">>>>>>,
  <<"-", <<"E">>, <<"sinh", <<"V">>>>>>,
  <<"/", <<"sinh", <<"V">>>>, <<"E">>>>,
  <<"tan", <<"+", <<"I">>, <<"E">>>>>>,
  <<"tan", <<"exp", <<"V">>>>>>,
  <<"cos", <<"cos", <<"E">>>>>>,
  <<"acosh", <<"neg", <<"V">>>>>>,
  <<"sqrt", <<"-", <<"P">>, <<"V">>>>>>,
  <<"asin", <<"tan", <<"V">>>>>>,
  <<"CosS", <<"tanh", <<"V">>>>>>,
  <<"/", <<"neg", <<"P">>>>, <<"E">>>>,
  <<"sinh", <<"asinh", <<"V">>>>>>,
  <<"log", <<"acos", <<"V">>>>>>,
  <<"sqrt", <<"sqrt", <<"V">>>>>>,
  <<"atanh", <<"^", <<"V">>, <<"P">>>>>>,
  <<"cos", <<"^", <<"V">>, <<"E">>>>>>,
  <<"MixS", <<"/", <<"E">>, <<"P">>>>, <<"E">>>>,
  <<"exp", <<"-", <<"E">>, <<"T">>>>>>,
  <<"*", <<"P">>, <<"exp", <<"E">>>>>>,
  <<"asinh", <<"/", <<"V">>, <<"P">>>>>>,
  <<"CubeS", <<"asin", <<"V">>>>>>,
  <<"CosS", <<"-", <<"T">>, <<"E">>>>>>,
  <<"cos", <<"sinh", <<"E">>>>>>,
  <<"/", <<"E">>, <<"/", <<"I">>, <<"V">>>>>>,
  <<"^", <<"acos", <<"V">>>>, <<"E">>>>,
  <<"sinh", <<"acos", <<"V">>>>>>,
  <<"cosh", <<"acosh", <<"E">>>>>>,
  <<"/", <<"CubeS", <<"V">>>>, <<"E">>>>,
  <<"^", <<"P">>, <<"tanh", <<"E">>>>>>,
  <<"/", <<"SinS", <<"E">>>>, <<"V">>>>,
  <<"ProductS", <<"cos", <<"E">>>>, <<"P">>>>,
  <<"asinh", <<"asinh", <<"P">>>>>>,
  <<"^", <<"V">>, <<"asinh", <<"V">>>>>>,
  <<"/", <<"^", <<"E">>, <<"V">>>>, <<"P">>>>,
  <<"cos", <<"asin", <<"E">>>>>>,
  <<"log", <<"atan", <<"V">>>>>>,
  <<"sinh", <<"atan", <<"E">>>>>>,
  <<"asinh", <<"sinh", <<"E">>>>>>,
  <<"CubeS", <<"+", <<"T">>, <<"V">>>>>>,
  <<"acos", <<"exp", <<"E">>>>>>,
  <<"/", <<"+", <<"P">>, <<"V">>>>, <<"P">>>>,
  <<"CosS", <<"asinh", <<"V">>>>>>,
  <<"sin", <<"sqrt", <<"V">>>>>>,
  <<"-", <<"V">>, <<"atanh", <<"V">>>>>>,
  <<"*", <<"P">>, <<"sin", <<"E">>>>>>,
  <<"sin", <<"cos", <<"E">>>>>>,
  <<"tan", <<"-", <<"V">>, <<"T">>>>>>,
  <<"-", <<"P">>, <<"sin", <<"E">>>>>>,
  <<"tan", <<"asinh", <<"E">>>>>>,
  <<"cos", <<"asinh", <<"V">>>>>>,
  <<"+", <<"acos", <<"E">>>>, <<"V">>>>,
  <<"acos", <<"asinh", <<"E">>>>>>,
  <<"acos", <<"acosh", <<"V">>>>>>,
  <<"sinh", <<"^", <<"V">>, <<"V">>>>>>,
  <<"^", <<"E">>, <<"atanh", <<"E">>>>>>,
  <<"tanh", <<"+", <<"T">>, <<"E">>>>>>,
  <<"neg", <<"tanh", <<"V">>>>>>,
  <<"/", <<"asin", <<"E">>>>, <<"I">>>>,
  <<"atanh", <<"atanh", <<"P">>>>>>,
  <<"^", <<"CubeS", <<"V">>>>, <<"V">>>>,
  <<"asinh", <<"exp", <<"V">>>>>>,
  <<"CubeS", <<"neg", <<"E">>>>>>,
  <<"atan", <<"asin", <<"V">>>>>>,
  <<"SinS", <<"/", <<"E">>, <<"P">>>>>>,
  <<"-", <<"T">>, <<"tanh", <<"V">>>>>>,
  <<"/", <<"*", <<"E">>, <<"P">>>>, <<"V">>>>,
  <<"+", <<"E">>, <<"asin", <<"V">>>>>>,
  <<"cosh", <<"atan", <<"V">>>>>>,
  <<"SinS", <<"log", <<"V">>>>>>,
  <<"exp", <<"atanh", <<"E">>>>>>,
  <<"acosh", <<"+", <<"T">>, <<"E">>>>>>,
  <<"tan", <<"atan", <<"V">>>>>>,
  <<"^", <<"V">>, <<"CosS", <<"E">>>>>>,
  <<"log", <<"log", <<"V">>>>>>,
  <<"ProductS", <<"V">>, <<"sin", <<"V">>>>>>,
  <<"ProductS", <<"V">>, <<"^", <<"V">>, <<"V">>>>>>,
  <<"^", <<"P">>, <<"cos", <<"V">>>>>>,
  <<"MixS", <<"^", <<"T">>, <<"P">>>>, <<"V">>>>,
  <<"atanh", <<"cos", <<"E">>>>>>,
  <<"asin", <<"sin", <<"P">>>>>>,
  <<"asin", <<"*", <<"V">>, <<"E">>>>>>,
  <<"acosh", <<"sqrt", <<"P">>>>>>,
  <<"^", <<"E">>, <<"SinS", <<"V">>>>>>,
  <<"*", <<"E">>, <<"tanh", <<"P">>>>>>,
  <<"cosh", <<"/", <<"I">>, <<"E">>>>>>,
  <<"SinS", <<"atan", <<"V">>>>>>,
  <<"CosS", <<"asin", <<"V">>>>>>,
  <<"SinS", <<"sqrt", <<"V">>>>>>,
  <<"/", <<"V">>, <<"tan", <<"V">>>>>>,
  <<"acosh", <<"asin", <<"E">>>>>>,
  <<"+", <<"I">>, <<"/", <<"T">>, <<"E">>>>>>,
  <<"*", <<"neg", <<"V">>>>, <<"T">>>>,
  <<"^", <<"sinh", <<"P">>>>, <<"V">>>>,
  <<"^", <<"E">>, <<"tan", <<"P">>>>>>,
  <<"*", <<"log", <<"E">>>>, <<"I">>>>,
  <<"cosh", <<"asin", <<"V">>>>>>,
  <<"sqrt", <<"atanh", <<"V">>>>>>,
  <<"neg", <<"cos", <<"V">>>>>>,
  <<"asin", <<"cosh", <<"V">>>>>>,
  <<"atan", <<"atan", <<"V">>>>>>,
  <<"-", <<"I">>, <<"acosh", <<"V">>>>>>,
  <<"^", <<"T">>, <<"acosh", <<"V">>>>>>,
  <<"^", <<"T">>, <<"cosh", <<"V">>>>>>,
  <<"SinS", <<"acos", <<"V">>>>>>,
  <<"cosh", <<"cos", <<"P">>>>>>,
  <<"cos", <<"+", <<"I">>, <<"E">>>>>>,
  <<"CubeS", <<"atan", <<"E">>>>>>,
  <<"acosh", <<"atanh", <<"E">>>>>>,
  <<"-", <<"^", <<"E">>, <<"V">>>>, <<"V">>>>,
  <<"sqrt", <<"/", <<"V">>, <<"V">>>>>>,
  <<"+", <<"E">>, <<"+", <<"V">>, <<"I">>>>>>,
  <<"tanh", <<"cos", <<"E">>>>>>,
  <<"MixS", <<"E">>, <<"*", <<"V">>, <<"P">>>>>>,
  <<"/", <<"/", <<"V">>, <<"T">>>>, <<"E">>>>,
  <<"exp", <<"neg", <<"E">>>>>>,
  <<"*", <<"sqrt", <<"E">>>>, <<"I">>>>,
  <<"acos", <<"atanh", <<"E">>>>>>,
  <<"neg", <<"neg", <<"V">>>>>>,
  <<"exp", <<"exp", <<"E">>>>>>,
  <<"tanh", <<"exp", <<"E">>>>>>,
  <<"acos", <<"^", <<"T">>, <<"E">>>>>>,
  <<"^", <<"E">>, <<"asin", <<"V">>>>>>,
  <<"+", <<"SinS", <<"V">>>>, <<"P">>>>,
  <<"+", <<"CubeS", <<"E">>>>, <<"I">>>>,
  <<"-", <<"asinh", <<"E">>>>, <<"I">>>>,
  <<"+", <<"neg", <<"V">>>>, <<"V">>>>,
  <<"CubeS", <<"/", <<"E">>, <<"V">>>>>>,
  <<"tan", <<"asin", <<"V">>>>>>,
  <<"ProductS", <<"E">>, <<"+", <<"E">>, <<"V">>>>>>,
  <<"sinh", <<"acosh", <<"E">>>>>>,
  <<"cos", <<"exp", <<"V">>>>>>,
  <<"asinh", <<"*", <<"E">>, <<"V">>>>>>,
  <<"cos", <<"neg", <<"E">>>>>>,
  <<"*", <<"^", <<"P">>, <<"E">>>>, <<"E">>>>,
  <<"sqrt", <<"neg", <<"P">>>>>>,
  <<"+", <<"E">>, <<"^", <<"E">>, <<"V">>>>>>,
  <<"asinh", <<"cos", <<"P">>>>>>,
  <<"+", <<"*", <<"E">>, <<"E">>>>, <<"V">>>>,
  <<"asin", <<"tanh", <<"E">>>>>>,
  <<"/", <<"exp", <<"P">>>>, <<"T">>>>,
  <<"-", <<"atan", <<"V">>>>, <<"P">>>>,
  <<"-", <<"I">>, <<"SinS", <<"V">>>>>>,
  <<"+", <<"atan", <<"P">>>>, <<"T">>>>,
  <<"/", <<"T">>, <<"neg", <<"V">>>>>>,
  <<"ProductS", <<"V">>, <<"/", <<"E">>, <<"V">>>>>>,
  <<"sqrt", <<"tanh", <<"V">>>>>>,
  <<"*", <<"E">>, <<"*", <<"V">>, <<"I">>>>>>,
  <<"MixS", <<"+", <<"P">>, <<"I">>>>, <<"P">>>>,
  <<"acos", <<"sin", <<"P">>>>>>,
  <<"^", <<"sqrt", <<"P">>>>, <<"E">>>>,
  <<"*", <<"/", <<"V">>, <<"V">>>>, <<"I">>>>,
  <<"/", <<"acosh", <<"V">>>>, <<"T">>>>,
  <<"exp", <<"^", <<"I">>, <<"V">>>>>>,
  <<"+", <<"-", <<"E">>, <<"V">>>>, <<"V">>>>,
  <<"*", <<"P">>, <<"asinh", <<"P">>>>>>,
  <<"atanh", <<"tan", <<"E">>>>>>,
  <<"sin", <<"neg", <<"E">>>>>>,
  <<"tan", <<"/", <<"I">>, <<"V">>>>>>,
  <<"^", <<"V">>, <<"sqrt", <<"V">>>>>>,
  <<"^", <<"V">>, <<"acos", <<"V">>>>>>,
  <<"sin", <<"sinh", <<"V">>>>>>,
  <<"^", <<"/", <<"V">>, <<"T">>>>, <<"V">>>>,
  <<"cos", <<"acos", <<"V">>>>>>,
  <<"+", <<"CosS", <<"V">>>>, <<"V">>>>,
  <<"acosh", <<"acos", <<"P">>>>>>,
  <<"CubeS", <<"asinh", <<"V">>>>>>,
  <<"SinS", <<"tanh", <<"E">>>>>>,
  <<"*", <<"cosh", <<"E">>>>, <<"P">>>>,
  <<"asin", <<"^", <<"P">>, <<"E">>>>>>,
  <<"CubeS", <<"cosh", <<"V">>>>>>,
  <<"*", <<"I">>, <<"MixS", <<"E">>, <<"E">>>>>>,
  <<"atanh", <<"-", <<"V">>, <<"V">>>>>>,
  <<"^", <<"E">>, <<"exp", <<"E">>>>>>,
  <<"/", <<"V">>, <<"tanh", <<"E">>>>>>,
  <<"atanh", <<"/", <<"E">>, <<"I">>>>>>,
  <<"-", <<"cos", <<"V">>>>, <<"V">>>>,
  <<"ProductS", <<"tan", <<"V">>>>, <<"V">>>>,
  <<"*", <<"sinh", <<"V">>>>, <<"E">>>>,
  <<"SinS", <<"-", <<"T">>, <<"E">>>>>>,
  <<"^", <<"P">>, <<"*", <<"I">>, <<"E">>>>>>,
  <<"atan", <<"/", <<"E">>, <<"E">>>>>>,
  <<"sinh", <<"exp", <<"P">>>>>>,
  <<"^", <<"atan", <<"E">>>>, <<"V">>>>,
  <<"cos", <<"*", <<"V">>, <<"V">>>>>>,
  <<"sin", <<"^", <<"P">>, <<"P">>>>>>,
  <<"-", <<"I">>, <<"tan", <<"V">>>>>>,
  <<"acosh", <<"sin", <<"V">>>>>>,
  <<"+", <<"ProductS", <<"E">>, <<"E">>>>, <<"V">>>>,
  <<"SinS", <<"cos", <<"E">>>>>>,
  <<"/", <<"V">>, <<"+", <<"P">>, <<"E">>>>>>,
  <<"log", <<"^", <<"E">>, <<"E">>>>>>,
  <<"sqrt", <<"cos", <<"P">>>>>>,
  <<"CosS", <<"sin", <<"V">>>>>>,
  <<"tanh", <<"acos", <<"V">>>>>>,
  <<"*", <<"+", <<"V">>, <<"V">>>>, <<"P">>>>,
  <<"+", <<"+", <<"V">>, <<"V">>>>, <<"V">>>>,
  <<"cos", <<"tan", <<"V">>>>>>,
  <<"+", <<"E">>, <<"sinh", <<"V">>>>>>,
  <<"/", <<"cos", <<"E">>>>, <<"P">>>>,
  <<"*", <<"V">>, <<"cos", <<"V">>>>>>,
  <<"-", <<"exp", <<"V">>>>, <<"E">>>>,
  <<"ProductS", <<"sin", <<"V">>>>, <<"E">>>>,
  <<"exp", <<"asin", <<"V">>>>>>,
  <<"log", <<"*", <<"I">>, <<"P">>>>>>,
  <<"-", <<"V">>, <<"atan", <<"P">>>>>>,
  <<"neg", <<"atanh", <<"V">>>>>>,
  <<"cos", <<"sqrt", <<"E">>>>>>,
  <<"/", <<"E">>, <<"exp", <<"V">>>>>>,
  <<"MixS", <<"-", <<"V">>, <<"E">>>>, <<"V">>>>,
  <<"sqrt", <<"cosh", <<"V">>>>>>,
  <<"tanh", <<"cosh", <<"E">>>>>>,
  <<"*", <<"I">>, <<"ProductS", <<"P">>, <<"V">>>>>>,
  <<"exp", <<"/", <<"V">>, <<"E">>>>>>,
  <<"sin", <<"+", <<"I">>, <<"V">>>>>>,
  <<"+", <<"log", <<"V">>>>, <<"I">>>>,
  <<"sin", <<"*", <<"I">>, <<"V">>>>>>,
  <<"acosh", <<"log", <<"E">>>>>>,
  <<"+", <<"P">>, <<"sin", <<"P">>>>>>,
  <<"sinh", <<"sqrt", <<"V">>>>>>,
  <<"ProductS", <<"^", <<"E">>, <<"T">>>>, <<"E">>>>,
  <<"/", <<"V">>, <<"sqrt", <<"V">>>>>>,
  <<"sqrt", <<"sin", <<"V">>>>>>,
  <<"MixS", <<"E">>, <<"^", <<"V">>, <<"E">>>>>>,
  <<"atan", <<"sqrt", <<"P">>>>>>,
  <<"sqrt", <<"*", <<"V">>, <<"E">>>>>>,
  <<"+", <<"E">>, <<"tanh", <<"P">>>>>>,
  <<"ProductS", <<"/", <<"I">>, <<"V">>>>, <<"V">>>>,
  <<"SinS", <<"sinh", <<"V">>>>>>,
  <<"atanh", <<"tanh", <<"P">>>>>>,
  <<"^", <<"V">>, <<"^", <<"V">>, <<"V">>>>>>,
  <<"sin", <<"asin", <<"P">>>>>>,
  <<"*", <<"E">>, <<"tan", <<"V">>>>>>,
  <<"atan", <<"atanh", <<"P">>>>>>,
  <<"tanh", <<"atanh", <<"P">>>>>>,
  <<"*", <<"SinS", <<"E">>>>, <<"V">>>>,
  <<"+", <<"T">>, <<"exp", <<"V">>>>>>,
  <<"tan", <<"acos", <<"V">>>>>>,
  <<"log", <<"+", <<"I">>, <<"P">>>>>>,
  <<"CosS", <<"acos", <<"V">>>>>>,
  <<"-", <<"E">>, <<"sqrt", <<"V">>>>>>,
  <<"exp", <<"tanh", <<"V">>>>>>,
  <<"^", <<"E">>, <<"-", <<"P">>, <<"V">>>>>>,
  <<"cosh", <<"sin", <<"E">>>>>>,
  <<"CosS", <<"atanh", <<"V">>>>>>,
  <<"^", <<"atanh", <<"V">>>>, <<"E">>>>,
  <<"cosh", <<"exp", <<"E">>>>>>,
  <<"neg", <<"atan", <<"E">>>>>>,
  <<"*", <<"CosS", <<"V">>>>, <<"V">>>>,
  <<"CubeS", <<"-", <<"T">>, <<"P">>>>>>,
  <<"log", <<"acosh", <<"E">>>>>>,
  <<"+", <<"E">>, <<"cos", <<"V">>>>>>,
  <<"*", <<"T">>, <<"sqrt", <<"V">>>>>>,
  <<"exp", <<"log", <<"V">>>>>>,
  <<"sin", <<"log", <<"E">>>>>>,
  <<"-", <<"CubeS", <<"V">>>>, <<"V">>>>,
  <<"log", <<"cos", <<"E">>>>>>,
  <<"^", <<"CosS", <<"E">>>>, <<"V">>>>,
  <<"/", <<"E">>, <<"^", <<"V">>, <<"E">>>>>>,
  <<"^", <<"sin", <<"V">>>>, <<"E">>>>,
  <<"asinh", <<"asin", <<"E">>>>>>,
  <<"atan", <<"exp", <<"E">>>>>>,
  <<"atan", <<"cos", <<"P">>>>>>,
  <<"/", <<"T">>, <<"asinh", <<"V">>>>>>,
  <<"log", <<"asin", <<"E">>>>>>,
  <<"acos", <<"atan", <<"E">>>>>>,
  <<"+", <<"MixS", <<"V">>, <<"V">>>>, <<"T">>>>,
  <<"sinh", <<"cosh", <<"E">>>>>>,
  <<"-", <<"sqrt", <<"E">>>>, <<"P">>>>,
  <<"/", <<"V">>, <<"CubeS", <<"V">>>>>>,
  <<"/", <<"V">>, <<"acosh", <<"P">>>>>>,
  <<"log", <<"atanh", <<"V">>>>>>,
  <<"neg", <<"exp", <<"V">>>>>>,
  <<"*", <<"atanh", <<"E">>>>, <<"E">>>>,
  <<"^", <<"E">>, <<"sin", <<"E">>>>>>,
  <<"log", <<"sqrt", <<"V">>>>>>,
  <<"tanh", <<"asin", <<"V">>>>>>,
  <<"-", <<"E">>, <<"asinh", <<"E">>>>>>,
  <<"asin", <<"-", <<"P">>, <<"I">>>>>>,
  <<"asin", <<"acos", <<"E">>>>>>,
  <<"CosS", <<"log", <<"P">>>>>>,
  <<"/", <<"sin", <<"E">>>>, <<"E">>>>,
  <<"log", <<"exp", <<"V">>>>>>,
  <<"*", <<"-", <<"E">>, <<"V">>>>, <<"V">>>>,
  <<"CubeS", <<"sqrt", <<"E">>>>>>,
  <<"cosh", <<"+", <<"V">>, <<"E">>>>>>,
  <<"-", <<"E">>, <<"cosh", <<"P">>>>>>,
  <<"acosh", <<"tan", <<"V">>>>>>,
  <<"asin", <<"cos", <<"E">>>>>>,
  <<"SinS", <<"acosh", <<"E">>>>>>,
  <<"^", <<"E">>, <<"/", <<"T">>, <<"P">>>>>>,
  <<"*", <<"V">>, <<"atanh", <<"P">>>>>>,
  <<"atan", <<"cosh", <<"E">>>>>>,
  <<"^", <<"E">>, <<"log", <<"E">>>>>>,
  <<"-", <<"SinS", <<"E">>>>, <<"E">>>>,
  <<"acos", <<"sqrt", <<"E">>>>>>,
  <<"MixS", <<"V">>, <<"-", <<"V">>, <<"V">>>>>>,
  <<"atan", <<"tan", <<"V">>>>>>,
  <<"-", <<"log", <<"P">>>>, <<"V">>>>,
  <<"MixS", <<"E">>, <<"sin", <<"E">>>>>>,
  <<"MixS", <<"cos", <<"E">>>>, <<"V">>>>,
  <<"*", <<"V">>, <<"/", <<"V">>, <<"E">>>>>>,
  <<"atanh", <<"atan", <<"V">>>>>>,
  <<"cosh", <<"neg", <<"V">>>>>>,
  <<"acosh", <<"^", <<"E">>, <<"V">>>>>>,
  <<"sinh", <<"log", <<"V">>>>>>,
  <<"asin", <<"/", <<"V">>, <<"P">>>>>>,
  <<"CubeS", <<"^", <<"P">>, <<"P">>>>>>,
  <<"log", <<"sinh", <<"V">>>>>>,
  <<"atan", <<"-", <<"T">>, <<"E">>>>>>,
  <<"sinh", <<"sinh", <<"E">>>>>>,
  <<"cos", <<"log", <<"E">>>>>>,
  <<"/", <<"E">>, <<"log", <<"V">>>>>>,
  <<"atanh", <<"acosh", <<"E">>>>>>,
  <<"*", <<"tanh", <<"E">>>>, <<"V">>>>,
  <<"-", <<"ProductS", <<"V">>, <<"V">>>>, <<"E">>>>,
  <<"CubeS", <<"*", <<"V">>, <<"T">>>>>>,
  <<"+", <<"/", <<"T">>, <<"V">>>>, <<"V">>>>,
  <<"cos", <<"cosh", <<"V">>>>>>,
  <<"acos", <<"-", <<"T">>, <<"P">>>>>>,
  <<"neg", <<"+", <<"I">>, <<"V">>>>>>,
  <<"neg", <<"asinh", <<"E">>>>>>,
  <<"^", <<"E">>, <<"ProductS", <<"V">>, <<"V">>>>>>,
  <<"atanh", <<"sinh", <<"P">>>>>>,
  <<"acosh", <<"asinh", <<"V">>>>>>,
  <<"neg", <<"tan", <<"V">>>>>>,
  <<"/", <<"E">>, <<"sinh", <<"E">>>>>>,
  <<"tan", <<"sinh", <<"V">>>>>>,
  <<"CosS", <<"*", <<"P">>, <<"E">>>>>>,
  <<"sinh", <<"neg", <<"V">>>>>>,
  <<"*", <<"atan", <<"E">>>>, <<"P">>>>,
  <<"atan", <<"asinh", <<"V">>>>>>,
  <<"sqrt", <<"tan", <<"E">>>>>>,
  <<"SinS", <<"+", <<"V">>, <<"E">>>>>>,
  <<"+", <<"tanh", <<"E">>>>, <<"E">>>>,
  <<"-", <<"tanh", <<"E">>>>, <<"V">>>>,
  <<"sinh", <<"sin", <<"E">>>>>>,
  <<"asinh", <<"^", <<"E">>, <<"E">>>>>>,
  <<"sqrt", <<"asin", <<"E">>>>>>,
  <<"/", <<"atanh", <<"V">>>>, <<"P">>>>,
  <<"atanh", <<"neg", <<"V">>>>>>,
  <<"sin", <<"exp", <<"E">>>>>>,
  <<"^", <<"MixS", <<"E">>, <<"V">>>>, <<"E">>>>,
  <<"ProductS", <<"E">>, <<"tan", <<"V">>>>>>,
  <<"sin", <<"atanh", <<"E">>>>>>,
  <<"/", <<"sqrt", <<"P">>>>, <<"E">>>>,
  <<"-", <<"P">>, <<"cos", <<"P">>>>>>,
  <<"tan", <<"^", <<"E">>, <<"E">>>>>>,
  <<"^", <<"^", <<"E">>, <<"V">>>>, <<"E">>>>,
  <<"acos", <<"acos", <<"E">>>>>>,
  <<"ProductS", <<"V">>, <<"-", <<"E">>, <<"E">>>>>>,
  <<"neg", <<"^", <<"E">>, <<"V">>>>>>,
  <<"cosh", <<"asinh", <<"V">>>>>>,
  <<"/", <<"V">>, <<"*", <<"E">>, <<"I">>>>>>,
  <<"asin", <<"sinh", <<"E">>>>>>,
  <<"exp", <<"tan", <<"V">>>>>>,
  <<"/", <<"P">>, <<"cos", <<"E">>>>>>,
  <<"asin", <<"asin", <<"V">>>>>>,
  <<"+", <<"V">>, <<"sqrt", <<"E">>>>>>,
  <<"CosS", <<"neg", <<"V">>>>>>,
  <<"sqrt", <<"asinh", <<"V">>>>>>,
  <<"neg", <<"acos", <<"E">>>>>>,
  <<"/", <<"atan", <<"E">>>>, <<"P">>>>,
  <<"asin", <<"log", <<"E">>>>>>,
  <<"exp", <<"acosh", <<"E">>>>>>,
  <<"/", <<"tanh", <<"P">>>>, <<"E">>>>,
  <<"asinh", <<"sin", <<"V">>>>>>,
  <<"CosS", <<"cos", <<"V">>>>>>,
  <<"*", <<"T">>, <<"^", <<"P">>, <<"T">>>>>>,
  <<"neg", <<"*", <<"V">>, <<"V">>>>>>,
  <<"/", <<"log", <<"P">>>>, <<"E">>>>,
  <<"atanh", <<"exp", <<"P">>>>>>,
  <<"CosS", <<"acosh", <<"V">>>>>>,
  <<"asinh", <<"acos", <<"V">>>>>>,
  <<"acos", <<"*", <<"I">>, <<"V">>>>>>,
  <<"sqrt", <<"exp", <<"V">>>>>>,
  <<"sinh", <<"atanh", <<"V">>>>>>,
  <<"atanh", <<"+", <<"I">>, <<"V">>>>>>,
  <<"cosh", <<"sinh", <<"V">>>>>>,
  <<"-", <<"/", <<"V">>, <<"V">>>>, <<"E">>>>,
  <<"SinS", <<"atanh", <<"V">>>>>>,
  <<"asinh", <<"+", <<"V">>, <<"E">>>>>>,
  <<"CosS", <<"cosh", <<"P">>>>>>,
  <<"atanh", <<"asin", <<"V">>>>>>,
  <<"cosh", <<"cosh", <<"V">>>>>>,
  <<"+", <<"asinh", <<"V">>>>, <<"T">>>>,
  <<"cosh", <<"sqrt", <<"P">>>>>>,
  <<"*", <<"P">>, <<"log", <<"E">>>>>>,
  <<"tan", <<"cosh", <<"P">>>>>>,
  <<"tanh", <<"neg", <<"E">>>>>>,
  <<"-", <<"sin", <<"E">>>>, <<"V">>>>,
  <<"log", <<"asinh", <<"E">>>>>>,
  <<"atan", <<"acosh", <<"E">>>>>>,
  <<"tan", <<"sqrt", <<"E">>>>>>,
  <<"asin", <<"asinh", <<"E">>>>>>,
  <<"*", <<"I">>, <<"neg", <<"P">>>>>>,
  <<"/", <<"E">>, <<"atanh", <<"V">>>>>>,
  <<"acosh", <<"atan", <<"V">>>>>>,
  <<"^", <<"V">>, <<"neg", <<"V">>>>>>,
  <<"+", <<"sinh", <<"V">>>>, <<"E">>>>,
  <<"ProductS", <<"V">>, <<"*", <<"E">>, <<"E">>>>>>,
  <<"-", <<"acos", <<"V">>>>, <<"P">>>>,
  <<"asinh", <<"atanh", <<"V">>>>>>,
  <<"SinS", <<"cosh", <<"E">>>>>>,
  <<"+", <<"cos", <<"E">>>>, <<"T">>>>,
  <<"asinh", <<"cosh", <<"V">>>>>>,
  <<"tan", <<"neg", <<"V">>>>>>,
  <<"asinh", <<"acosh", <<"V">>>>>>,
  <<"asin", <<"sqrt", <<"E">>>>>>,
  <<"/", <<"V">>, <<"atan", <<"V">>>>>>,
  <<"acosh", <<"sinh", <<"E">>>>>>,
  <<"CosS", <<"tan", <<"V">>>>>>,
  <<"^", <<"SinS", <<"E">>>>, <<"T">>>>,
  <<"-", <<"tan", <<"E">>>>, <<"E">>>>,
  <<"CubeS", <<"cos", <<"V">>>>>>,
  <<"neg", <<"cosh", <<"V">>>>>>,
  <<"CosS", <<"atan", <<"E">>>>>>,
  <<"ProductS", <<"V">>, <<"cos", <<"V">>>>>>,
  <<"SinS", <<"*", <<"V">>, <<"E">>>>>>,
  <<"asin", <<"+", <<"E">>, <<"I">>>>>>,
  <<"+", <<"exp", <<"E">>>>, <<"E">>>>,
  <<"tanh", <<"sin", <<"V">>>>>>,
  <<"sinh", <<"asin", <<"V">>>>>>,
  <<"+", <<"V">>, <<"tan", <<"V">>>>>>,
  <<"tan", <<"*", <<"V">>, <<"E">>>>>>,
  <<"*", <<"tan", <<"E">>>>, <<"P">>>>,
  <<"tanh", <<"log", <<"V">>>>>>,
  <<"SinS", <<"^", <<"V">>, <<"E">>>>>>,
  <<"+", <<"T">>, <<"atan", <<"P">>>>>>,
  <<"^", <<"log", <<"P">>>>, <<"V">>>>,
  <<"+", <<"sqrt", <<"E">>>>, <<"P">>>>,
  <<"-", <<"acosh", <<"V">>>>, <<"T">>>>,
  <<"+", <<"I">>, <<"MixS", <<"E">>, <<"P">>>>>>,
  <<"^", <<"*", <<"V">>, <<"V">>>>, <<"V">>>>,
  <<"-", <<"CosS", <<"P">>>>, <<"I">>>>,
  <<"tanh", <<"sqrt", <<"E">>>>>>,
  <<"-", <<"V">>, <<"CubeS", <<"V">>>>>>,
  <<"-", <<"P">>, <<"*", <<"P">>, <<"P">>>>>>,
  <<"tanh", <<"tan", <<"E">>>>>>,
  <<"+", <<"T">>, <<"CubeS", <<"E">>>>>>,
  <<"CubeS", <<"tanh", <<"P">>>>>>,
  <<"+", <<"V">>, <<"asinh", <<"V">>>>>>,
  <<"acos", <<"cos", <<"V">>>>>>,
  <<"MixS", <<"V">>, <<"tan", <<"P">>>>>>,
  <<"acosh", <<"tanh", <<"V">>>>>>,
  <<"asinh", <<"atan", <<"V">>>>>>,
  <<"asinh", <<"sqrt", <<"V">>>>>>,
  <<"cos", <<"acosh", <<"V">>>>>>,
  <<"sin", <<"cosh", <<"V">>>>>>,
  <<"/", <<"I">>, <<"sin", <<"E">>>>>>,
  <<"acos", <<"neg", <<"V">>>>>>,
  <<"CosS", <<"exp", <<"V">>>>>>,
  <<"tanh", <<"tanh", <<"V">>>>>>,
  <<"tan", <<"atanh", <<"E">>>>>>,
  <<"-", <<"sinh", <<"E">>>>, <<"I">>>>,
  <<"^", <<"asinh", <<"V">>>>, <<"I">>>>,
  <<"/", <<"MixS", <<"V">>, <<"V">>>>, <<"T">>>>,
  <<"sqrt", <<"acosh", <<"P">>>>>>,
  <<"CosS", <<"/", <<"T">>, <<"V">>>>>>,
  <<"-", <<"I">>, <<"exp", <<"V">>>>>>,
  <<"sqrt", <<"sinh", <<"V">>>>>>,
  <<"^", <<"+", <<"E">>, <<"V">>>>, <<"T">>>>,
  <<"sin", <<"tanh", <<"P">>>>>>,
  <<"-", <<"E">>, <<"neg", <<"V">>>>>>,
  <<"atan", <<"tanh", <<"V">>>>>>,
  <<"CubeS", <<"log", <<"V">>>>>>,
  <<"/", <<"acos", <<"V">>>>, <<"T">>>>,
  <<"log", <<"-", <<"V">>, <<"P">>>>>>,
  <<"MixS", <<"*", <<"I">>, <<"V">>>>, <<"E">>>>,
  <<"cos", <<"tanh", <<"E">>>>>>,
  <<"+", <<"V">>, <<"-", <<"V">>, <<"E">>>>>>,
  <<"acos", <<"/", <<"I">>, <<"E">>>>>>,
  <<"acos", <<"+", <<"I">>, <<"V">>>>>>,
  <<"asin", <<"neg", <<"E">>>>>>,
  <<"*", <<"*", <<"I">>, <<"E">>>>, <<"P">>>>,
  <<"+", <<"V">>, <<"acosh", <<"E">>>>>>,
  <<"asinh", <<"neg", <<"E">>>>>>,
  <<"SinS", <<"exp", <<"E">>>>>>,
  <<"+", <<"I">>, <<"acos", <<"E">>>>>>,
  <<"sin", <<"acosh", <<"V">>>>>>,
  <<"exp", <<"sinh", <<"E">>>>>>,
  <<"SinS", <<"neg", <<"V">>>>>>,
  <<"sin", <<"/", <<"P">>, <<"V">>>>>>,
  <<"exp", <<"sin", <<"V">>>>>>,
  <<"+", <<"P">>, <<"CosS", <<"E">>>>>>,
  <<"+", <<"asin", <<"V">>>>, <<"E">>>>,
  <<"atan", <<"^", <<"T">>, <<"V">>>>>>,
  <<"neg", <<"asin", <<"V">>>>>>,
  <<"+", <<"^", <<"P">>, <<"E">>>>, <<"V">>>>,
  <<"*", <<"MixS", <<"V">>, <<"E">>>>, <<"E">>>>,
  <<"tan", <<"sin", <<"V">>>>>>,
  <<"asin", <<"exp", <<"E">>>>>>,
  <<"SinS", <<"asin", <<"P">>>>>>,
  <<"-", <<"V">>, <<"MixS", <<"V">>, <<"V">>>>>>,
  <<"tan", <<"acosh", <<"V">>>>>>,
  <<"asin", <<"atan", <<"E">>>>>>,
  <<"cos", <<"atanh", <<"E">>>>>>,
  <<"asin", <<"acosh", <<"E">>>>>>,
  <<"tan", <<"tanh", <<"P">>>>>>,
  <<"cos", <<"atan", <<"V">>>>>>,
  <<"-", <<"-", <<"P">>, <<"V">>>>, <<"I">>>>,
  <<"*", <<"ProductS", <<"E">>, <<"E">>>>, <<"P">>>>,
  <<"sinh", <<"*", <<"I">>, <<"V">>>>>>,
  <<"*", <<"asin", <<"V">>>>, <<"I">>>>,
  <<"*", <<"T">>, <<"acosh", <<"V">>>>>>,
  <<"exp", <<"asinh", <<"V">>>>>>,
  <<"-", <<"MixS", <<"E">>, <<"E">>>>, <<"E">>>>,
  <<"+", <<"I">>, <<"atanh", <<"E">>>>>>,
  <<"acos", <<"sinh", <<"V">>>>>>,
  <<"/", <<"E">>, <<"asin", <<"V">>>>>>,
  <<"-", <<"neg", <<"V">>>>, <<"E">>>>,
  <<"^", <<"cos", <<"P">>>>, <<"T">>>>,
  <<"exp", <<"acos", <<"E">>>>>>,
  <<"atan", <<"sinh", <<"V">>>>>>,
  <<"*", <<"E">>, <<"CosS", <<"E">>>>>>,
  <<"*", <<"cos", <<"E">>>>, <<"E">>>>,
  <<"/", <<"E">>, <<"MixS", <<"P">>, <<"V">>>>>>,
  <<"asinh", <<"-", <<"E">>, <<"I">>>>>>
>>
=============================================================================
