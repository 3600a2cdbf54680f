// Written by hand-run generator; one entry point per (distribution, operation).
one!(distribution, bernoulli__distribution, Bernoulli::new(a0), (a0: f64));
one!(entropy, bernoulli__entropy, Bernoulli::new(a0), (a0: f64));
one!(mass8, bernoulli__mass, Bernoulli::new(a0), (a0: f64));
one!(inverse_d, bernoulli__inverse, Bernoulli::new(a0), (a0: f64));
one!(mean, bernoulli__mean, Bernoulli::new(a0), (a0: f64));
one!(variance, bernoulli__variance, Bernoulli::new(a0), (a0: f64));
one!(deviation, bernoulli__deviation, Bernoulli::new(a0), (a0: f64));
one!(skewness, bernoulli__skewness, Bernoulli::new(a0), (a0: f64));
one!(kurtosis, bernoulli__kurtosis, Bernoulli::new(a0), (a0: f64));
one!(median, bernoulli__median, Bernoulli::new(a0), (a0: f64));
one!(modes, bernoulli__modes, Bernoulli::new(a0), (a0: f64));
one!(sample, bernoulli__sample, Bernoulli::new(a0), (a0: f64));
one!(indep, bernoulli__indep, Bernoulli::new(a0), (a0: f64));
one!(indep_shared, bernoulli__indep_shared, Bernoulli::new(a0), (a0: f64));
one!(indep_take, bernoulli__indep_take, Bernoulli::new(a0), (a0: f64));
one!(indep_nth, bernoulli__indep_nth, Bernoulli::new(a0), (a0: f64));
one!(indep_resume, bernoulli__indep_resume, Bernoulli::new(a0), (a0: f64));
one!(indep_hint, bernoulli__indep_hint, Bernoulli::new(a0), (a0: f64));
f!(bernoulli__acc_p(a0: f64) -> f64 = Bernoulli::new(a0).p());
f!(bernoulli__acc_q(a0: f64) -> f64 = Bernoulli::new(a0).q());
one!(distribution, bernoulli_f__distribution, Bernoulli::with_failure(a0), (a0: f64));
one!(entropy, bernoulli_f__entropy, Bernoulli::with_failure(a0), (a0: f64));
one!(mass8, bernoulli_f__mass, Bernoulli::with_failure(a0), (a0: f64));
one!(inverse_d, bernoulli_f__inverse, Bernoulli::with_failure(a0), (a0: f64));
one!(mean, bernoulli_f__mean, Bernoulli::with_failure(a0), (a0: f64));
one!(variance, bernoulli_f__variance, Bernoulli::with_failure(a0), (a0: f64));
one!(deviation, bernoulli_f__deviation, Bernoulli::with_failure(a0), (a0: f64));
one!(skewness, bernoulli_f__skewness, Bernoulli::with_failure(a0), (a0: f64));
one!(kurtosis, bernoulli_f__kurtosis, Bernoulli::with_failure(a0), (a0: f64));
one!(median, bernoulli_f__median, Bernoulli::with_failure(a0), (a0: f64));
one!(modes, bernoulli_f__modes, Bernoulli::with_failure(a0), (a0: f64));
one!(sample, bernoulli_f__sample, Bernoulli::with_failure(a0), (a0: f64));
one!(indep, bernoulli_f__indep, Bernoulli::with_failure(a0), (a0: f64));
one!(indep_shared, bernoulli_f__indep_shared, Bernoulli::with_failure(a0), (a0: f64));
one!(indep_take, bernoulli_f__indep_take, Bernoulli::with_failure(a0), (a0: f64));
one!(indep_nth, bernoulli_f__indep_nth, Bernoulli::with_failure(a0), (a0: f64));
one!(indep_resume, bernoulli_f__indep_resume, Bernoulli::with_failure(a0), (a0: f64));
one!(indep_hint, bernoulli_f__indep_hint, Bernoulli::with_failure(a0), (a0: f64));
f!(bernoulli_f__acc_p(a0: f64) -> f64 = Bernoulli::with_failure(a0).p());
f!(bernoulli_f__acc_q(a0: f64) -> f64 = Bernoulli::with_failure(a0).q());
one!(distribution, beta__distribution, Beta::new(a0,a1,a2,a3), (a0: f64, a1: f64, a2: f64, a3: f64));
one!(entropy, beta__entropy, Beta::new(a0,a1,a2,a3), (a0: f64, a1: f64, a2: f64, a3: f64));
one!(density, beta__density, Beta::new(a0,a1,a2,a3), (a0: f64, a1: f64, a2: f64, a3: f64));
one!(inverse, beta__inverse, Beta::new(a0,a1,a2,a3), (a0: f64, a1: f64, a2: f64, a3: f64));
one!(mean, beta__mean, Beta::new(a0,a1,a2,a3), (a0: f64, a1: f64, a2: f64, a3: f64));
one!(variance, beta__variance, Beta::new(a0,a1,a2,a3), (a0: f64, a1: f64, a2: f64, a3: f64));
one!(deviation, beta__deviation, Beta::new(a0,a1,a2,a3), (a0: f64, a1: f64, a2: f64, a3: f64));
one!(skewness, beta__skewness, Beta::new(a0,a1,a2,a3), (a0: f64, a1: f64, a2: f64, a3: f64));
one!(kurtosis, beta__kurtosis, Beta::new(a0,a1,a2,a3), (a0: f64, a1: f64, a2: f64, a3: f64));
one!(median, beta__median, Beta::new(a0,a1,a2,a3), (a0: f64, a1: f64, a2: f64, a3: f64));
one!(modes, beta__modes, Beta::new(a0,a1,a2,a3), (a0: f64, a1: f64, a2: f64, a3: f64));
one!(sample, beta__sample, Beta::new(a0,a1,a2,a3), (a0: f64, a1: f64, a2: f64, a3: f64));
one!(indep, beta__indep, Beta::new(a0,a1,a2,a3), (a0: f64, a1: f64, a2: f64, a3: f64));
one!(indep_shared, beta__indep_shared, Beta::new(a0,a1,a2,a3), (a0: f64, a1: f64, a2: f64, a3: f64));
one!(indep_take, beta__indep_take, Beta::new(a0,a1,a2,a3), (a0: f64, a1: f64, a2: f64, a3: f64));
one!(indep_nth, beta__indep_nth, Beta::new(a0,a1,a2,a3), (a0: f64, a1: f64, a2: f64, a3: f64));
one!(indep_resume, beta__indep_resume, Beta::new(a0,a1,a2,a3), (a0: f64, a1: f64, a2: f64, a3: f64));
one!(indep_hint, beta__indep_hint, Beta::new(a0,a1,a2,a3), (a0: f64, a1: f64, a2: f64, a3: f64));
f!(beta__acc_alpha(a0: f64, a1: f64, a2: f64, a3: f64) -> f64 = Beta::new(a0,a1,a2,a3).alpha());
f!(beta__acc_beta(a0: f64, a1: f64, a2: f64, a3: f64) -> f64 = Beta::new(a0,a1,a2,a3).beta());
f!(beta__acc_a(a0: f64, a1: f64, a2: f64, a3: f64) -> f64 = Beta::new(a0,a1,a2,a3).a());
f!(beta__acc_b(a0: f64, a1: f64, a2: f64, a3: f64) -> f64 = Beta::new(a0,a1,a2,a3).b());
one!(distribution, binomial__distribution, Binomial::new(a0 as usize,a1), (a0: u64, a1: f64));
one!(entropy, binomial__entropy, Binomial::new(a0 as usize,a1), (a0: u64, a1: f64));
one!(mass, binomial__mass, Binomial::new(a0 as usize,a1), (a0: u64, a1: f64));
one!(inverse_d, binomial__inverse, Binomial::new(a0 as usize,a1), (a0: u64, a1: f64));
one!(mean, binomial__mean, Binomial::new(a0 as usize,a1), (a0: u64, a1: f64));
one!(variance, binomial__variance, Binomial::new(a0 as usize,a1), (a0: u64, a1: f64));
one!(deviation, binomial__deviation, Binomial::new(a0 as usize,a1), (a0: u64, a1: f64));
one!(skewness, binomial__skewness, Binomial::new(a0 as usize,a1), (a0: u64, a1: f64));
one!(kurtosis, binomial__kurtosis, Binomial::new(a0 as usize,a1), (a0: u64, a1: f64));
one!(median, binomial__median, Binomial::new(a0 as usize,a1), (a0: u64, a1: f64));
one!(modes, binomial__modes, Binomial::new(a0 as usize,a1), (a0: u64, a1: f64));
one!(sample, binomial__sample, Binomial::new(a0 as usize,a1), (a0: u64, a1: f64));
one!(indep, binomial__indep, Binomial::new(a0 as usize,a1), (a0: u64, a1: f64));
one!(indep_shared, binomial__indep_shared, Binomial::new(a0 as usize,a1), (a0: u64, a1: f64));
one!(indep_take, binomial__indep_take, Binomial::new(a0 as usize,a1), (a0: u64, a1: f64));
one!(indep_nth, binomial__indep_nth, Binomial::new(a0 as usize,a1), (a0: u64, a1: f64));
one!(indep_resume, binomial__indep_resume, Binomial::new(a0 as usize,a1), (a0: u64, a1: f64));
one!(indep_hint, binomial__indep_hint, Binomial::new(a0 as usize,a1), (a0: u64, a1: f64));
f!(binomial__acc_n(a0: u64, a1: f64) -> u64 = Binomial::new(a0 as usize,a1).n() as u64);
f!(binomial__acc_p(a0: u64, a1: f64) -> f64 = Binomial::new(a0 as usize,a1).p());
f!(binomial__acc_q(a0: u64, a1: f64) -> f64 = Binomial::new(a0 as usize,a1).q());
one!(distribution, binomial_f__distribution, Binomial::with_failure(a0 as usize,a1), (a0: u64, a1: f64));
one!(entropy, binomial_f__entropy, Binomial::with_failure(a0 as usize,a1), (a0: u64, a1: f64));
one!(mass, binomial_f__mass, Binomial::with_failure(a0 as usize,a1), (a0: u64, a1: f64));
one!(inverse_d, binomial_f__inverse, Binomial::with_failure(a0 as usize,a1), (a0: u64, a1: f64));
one!(mean, binomial_f__mean, Binomial::with_failure(a0 as usize,a1), (a0: u64, a1: f64));
one!(variance, binomial_f__variance, Binomial::with_failure(a0 as usize,a1), (a0: u64, a1: f64));
one!(deviation, binomial_f__deviation, Binomial::with_failure(a0 as usize,a1), (a0: u64, a1: f64));
one!(skewness, binomial_f__skewness, Binomial::with_failure(a0 as usize,a1), (a0: u64, a1: f64));
one!(kurtosis, binomial_f__kurtosis, Binomial::with_failure(a0 as usize,a1), (a0: u64, a1: f64));
one!(median, binomial_f__median, Binomial::with_failure(a0 as usize,a1), (a0: u64, a1: f64));
one!(modes, binomial_f__modes, Binomial::with_failure(a0 as usize,a1), (a0: u64, a1: f64));
one!(sample, binomial_f__sample, Binomial::with_failure(a0 as usize,a1), (a0: u64, a1: f64));
one!(indep, binomial_f__indep, Binomial::with_failure(a0 as usize,a1), (a0: u64, a1: f64));
one!(indep_shared, binomial_f__indep_shared, Binomial::with_failure(a0 as usize,a1), (a0: u64, a1: f64));
one!(indep_take, binomial_f__indep_take, Binomial::with_failure(a0 as usize,a1), (a0: u64, a1: f64));
one!(indep_nth, binomial_f__indep_nth, Binomial::with_failure(a0 as usize,a1), (a0: u64, a1: f64));
one!(indep_resume, binomial_f__indep_resume, Binomial::with_failure(a0 as usize,a1), (a0: u64, a1: f64));
one!(indep_hint, binomial_f__indep_hint, Binomial::with_failure(a0 as usize,a1), (a0: u64, a1: f64));
f!(binomial_f__acc_n(a0: u64, a1: f64) -> u64 = Binomial::with_failure(a0 as usize,a1).n() as u64);
f!(binomial_f__acc_p(a0: u64, a1: f64) -> f64 = Binomial::with_failure(a0 as usize,a1).p());
f!(binomial_f__acc_q(a0: u64, a1: f64) -> f64 = Binomial::with_failure(a0 as usize,a1).q());
one!(distribution, cauchy__distribution, Cauchy::new(a0,a1), (a0: f64, a1: f64));
one!(entropy, cauchy__entropy, Cauchy::new(a0,a1), (a0: f64, a1: f64));
one!(density, cauchy__density, Cauchy::new(a0,a1), (a0: f64, a1: f64));
one!(inverse, cauchy__inverse, Cauchy::new(a0,a1), (a0: f64, a1: f64));
one!(median, cauchy__median, Cauchy::new(a0,a1), (a0: f64, a1: f64));
one!(modes, cauchy__modes, Cauchy::new(a0,a1), (a0: f64, a1: f64));
one!(sample, cauchy__sample, Cauchy::new(a0,a1), (a0: f64, a1: f64));
one!(indep, cauchy__indep, Cauchy::new(a0,a1), (a0: f64, a1: f64));
one!(indep_shared, cauchy__indep_shared, Cauchy::new(a0,a1), (a0: f64, a1: f64));
one!(indep_take, cauchy__indep_take, Cauchy::new(a0,a1), (a0: f64, a1: f64));
one!(indep_nth, cauchy__indep_nth, Cauchy::new(a0,a1), (a0: f64, a1: f64));
one!(indep_resume, cauchy__indep_resume, Cauchy::new(a0,a1), (a0: f64, a1: f64));
one!(indep_hint, cauchy__indep_hint, Cauchy::new(a0,a1), (a0: f64, a1: f64));
f!(cauchy__acc_x_0(a0: f64, a1: f64) -> f64 = Cauchy::new(a0,a1).x_0());
f!(cauchy__acc_gamma(a0: f64, a1: f64) -> f64 = Cauchy::new(a0,a1).gamma());
one!(distribution, exponential__distribution, Exponential::new(a0), (a0: f64));
one!(entropy, exponential__entropy, Exponential::new(a0), (a0: f64));
one!(density, exponential__density, Exponential::new(a0), (a0: f64));
one!(inverse, exponential__inverse, Exponential::new(a0), (a0: f64));
one!(mean, exponential__mean, Exponential::new(a0), (a0: f64));
one!(variance, exponential__variance, Exponential::new(a0), (a0: f64));
one!(deviation, exponential__deviation, Exponential::new(a0), (a0: f64));
one!(skewness, exponential__skewness, Exponential::new(a0), (a0: f64));
one!(kurtosis, exponential__kurtosis, Exponential::new(a0), (a0: f64));
one!(median, exponential__median, Exponential::new(a0), (a0: f64));
one!(modes, exponential__modes, Exponential::new(a0), (a0: f64));
one!(sample, exponential__sample, Exponential::new(a0), (a0: f64));
one!(indep, exponential__indep, Exponential::new(a0), (a0: f64));
one!(indep_shared, exponential__indep_shared, Exponential::new(a0), (a0: f64));
one!(indep_take, exponential__indep_take, Exponential::new(a0), (a0: f64));
one!(indep_nth, exponential__indep_nth, Exponential::new(a0), (a0: f64));
one!(indep_resume, exponential__indep_resume, Exponential::new(a0), (a0: f64));
one!(indep_hint, exponential__indep_hint, Exponential::new(a0), (a0: f64));
f!(exponential__acc_lambda(a0: f64) -> f64 = Exponential::new(a0).lambda());
one!(distribution, gamma__distribution, distribution::Gamma::new(a0,a1), (a0: f64, a1: f64));
one!(entropy, gamma__entropy, distribution::Gamma::new(a0,a1), (a0: f64, a1: f64));
one!(density, gamma__density, distribution::Gamma::new(a0,a1), (a0: f64, a1: f64));
one!(mean, gamma__mean, distribution::Gamma::new(a0,a1), (a0: f64, a1: f64));
one!(variance, gamma__variance, distribution::Gamma::new(a0,a1), (a0: f64, a1: f64));
one!(deviation, gamma__deviation, distribution::Gamma::new(a0,a1), (a0: f64, a1: f64));
one!(skewness, gamma__skewness, distribution::Gamma::new(a0,a1), (a0: f64, a1: f64));
one!(kurtosis, gamma__kurtosis, distribution::Gamma::new(a0,a1), (a0: f64, a1: f64));
one!(modes, gamma__modes, distribution::Gamma::new(a0,a1), (a0: f64, a1: f64));
one!(sample, gamma__sample, distribution::Gamma::new(a0,a1), (a0: f64, a1: f64));
one!(indep, gamma__indep, distribution::Gamma::new(a0,a1), (a0: f64, a1: f64));
one!(indep_shared, gamma__indep_shared, distribution::Gamma::new(a0,a1), (a0: f64, a1: f64));
one!(indep_take, gamma__indep_take, distribution::Gamma::new(a0,a1), (a0: f64, a1: f64));
one!(indep_nth, gamma__indep_nth, distribution::Gamma::new(a0,a1), (a0: f64, a1: f64));
one!(indep_resume, gamma__indep_resume, distribution::Gamma::new(a0,a1), (a0: f64, a1: f64));
one!(indep_hint, gamma__indep_hint, distribution::Gamma::new(a0,a1), (a0: f64, a1: f64));
f!(gamma__acc_k(a0: f64, a1: f64) -> f64 = distribution::Gamma::new(a0,a1).k());
f!(gamma__acc_theta(a0: f64, a1: f64) -> f64 = distribution::Gamma::new(a0,a1).theta());
one!(distribution, gaussian__distribution, Gaussian::new(a0,a1), (a0: f64, a1: f64));
one!(entropy, gaussian__entropy, Gaussian::new(a0,a1), (a0: f64, a1: f64));
one!(density, gaussian__density, Gaussian::new(a0,a1), (a0: f64, a1: f64));
one!(inverse, gaussian__inverse, Gaussian::new(a0,a1), (a0: f64, a1: f64));
one!(mean, gaussian__mean, Gaussian::new(a0,a1), (a0: f64, a1: f64));
one!(variance, gaussian__variance, Gaussian::new(a0,a1), (a0: f64, a1: f64));
one!(deviation, gaussian__deviation, Gaussian::new(a0,a1), (a0: f64, a1: f64));
one!(skewness, gaussian__skewness, Gaussian::new(a0,a1), (a0: f64, a1: f64));
one!(kurtosis, gaussian__kurtosis, Gaussian::new(a0,a1), (a0: f64, a1: f64));
one!(median, gaussian__median, Gaussian::new(a0,a1), (a0: f64, a1: f64));
one!(modes, gaussian__modes, Gaussian::new(a0,a1), (a0: f64, a1: f64));
one!(sample, gaussian__sample, Gaussian::new(a0,a1), (a0: f64, a1: f64));
one!(indep, gaussian__indep, Gaussian::new(a0,a1), (a0: f64, a1: f64));
one!(indep_shared, gaussian__indep_shared, Gaussian::new(a0,a1), (a0: f64, a1: f64));
one!(indep_take, gaussian__indep_take, Gaussian::new(a0,a1), (a0: f64, a1: f64));
one!(indep_nth, gaussian__indep_nth, Gaussian::new(a0,a1), (a0: f64, a1: f64));
one!(indep_resume, gaussian__indep_resume, Gaussian::new(a0,a1), (a0: f64, a1: f64));
one!(indep_hint, gaussian__indep_hint, Gaussian::new(a0,a1), (a0: f64, a1: f64));
f!(gaussian__acc_mu(a0: f64, a1: f64) -> f64 = Gaussian::new(a0,a1).mu());
f!(gaussian__acc_sigma(a0: f64, a1: f64) -> f64 = Gaussian::new(a0,a1).sigma());
one!(distribution, laplace__distribution, Laplace::new(a0,a1), (a0: f64, a1: f64));
one!(entropy, laplace__entropy, Laplace::new(a0,a1), (a0: f64, a1: f64));
one!(density, laplace__density, Laplace::new(a0,a1), (a0: f64, a1: f64));
one!(inverse, laplace__inverse, Laplace::new(a0,a1), (a0: f64, a1: f64));
one!(mean, laplace__mean, Laplace::new(a0,a1), (a0: f64, a1: f64));
one!(variance, laplace__variance, Laplace::new(a0,a1), (a0: f64, a1: f64));
one!(deviation, laplace__deviation, Laplace::new(a0,a1), (a0: f64, a1: f64));
one!(skewness, laplace__skewness, Laplace::new(a0,a1), (a0: f64, a1: f64));
one!(kurtosis, laplace__kurtosis, Laplace::new(a0,a1), (a0: f64, a1: f64));
one!(median, laplace__median, Laplace::new(a0,a1), (a0: f64, a1: f64));
one!(modes, laplace__modes, Laplace::new(a0,a1), (a0: f64, a1: f64));
one!(sample, laplace__sample, Laplace::new(a0,a1), (a0: f64, a1: f64));
one!(indep, laplace__indep, Laplace::new(a0,a1), (a0: f64, a1: f64));
one!(indep_shared, laplace__indep_shared, Laplace::new(a0,a1), (a0: f64, a1: f64));
one!(indep_take, laplace__indep_take, Laplace::new(a0,a1), (a0: f64, a1: f64));
one!(indep_nth, laplace__indep_nth, Laplace::new(a0,a1), (a0: f64, a1: f64));
one!(indep_resume, laplace__indep_resume, Laplace::new(a0,a1), (a0: f64, a1: f64));
one!(indep_hint, laplace__indep_hint, Laplace::new(a0,a1), (a0: f64, a1: f64));
f!(laplace__acc_mu(a0: f64, a1: f64) -> f64 = Laplace::new(a0,a1).mu());
f!(laplace__acc_b(a0: f64, a1: f64) -> f64 = Laplace::new(a0,a1).b());
one!(distribution, logistic__distribution, Logistic::new(a0,a1), (a0: f64, a1: f64));
one!(entropy, logistic__entropy, Logistic::new(a0,a1), (a0: f64, a1: f64));
one!(density, logistic__density, Logistic::new(a0,a1), (a0: f64, a1: f64));
one!(inverse, logistic__inverse, Logistic::new(a0,a1), (a0: f64, a1: f64));
one!(mean, logistic__mean, Logistic::new(a0,a1), (a0: f64, a1: f64));
one!(variance, logistic__variance, Logistic::new(a0,a1), (a0: f64, a1: f64));
one!(deviation, logistic__deviation, Logistic::new(a0,a1), (a0: f64, a1: f64));
one!(skewness, logistic__skewness, Logistic::new(a0,a1), (a0: f64, a1: f64));
one!(kurtosis, logistic__kurtosis, Logistic::new(a0,a1), (a0: f64, a1: f64));
one!(median, logistic__median, Logistic::new(a0,a1), (a0: f64, a1: f64));
one!(modes, logistic__modes, Logistic::new(a0,a1), (a0: f64, a1: f64));
one!(sample, logistic__sample, Logistic::new(a0,a1), (a0: f64, a1: f64));
one!(indep, logistic__indep, Logistic::new(a0,a1), (a0: f64, a1: f64));
one!(indep_shared, logistic__indep_shared, Logistic::new(a0,a1), (a0: f64, a1: f64));
one!(indep_take, logistic__indep_take, Logistic::new(a0,a1), (a0: f64, a1: f64));
one!(indep_nth, logistic__indep_nth, Logistic::new(a0,a1), (a0: f64, a1: f64));
one!(indep_resume, logistic__indep_resume, Logistic::new(a0,a1), (a0: f64, a1: f64));
one!(indep_hint, logistic__indep_hint, Logistic::new(a0,a1), (a0: f64, a1: f64));
f!(logistic__acc_mu(a0: f64, a1: f64) -> f64 = Logistic::new(a0,a1).mu());
f!(logistic__acc_s(a0: f64, a1: f64) -> f64 = Logistic::new(a0,a1).s());
one!(distribution, lognormal__distribution, Lognormal::new(a0,a1), (a0: f64, a1: f64));
one!(entropy, lognormal__entropy, Lognormal::new(a0,a1), (a0: f64, a1: f64));
one!(density, lognormal__density, Lognormal::new(a0,a1), (a0: f64, a1: f64));
one!(inverse, lognormal__inverse, Lognormal::new(a0,a1), (a0: f64, a1: f64));
one!(mean, lognormal__mean, Lognormal::new(a0,a1), (a0: f64, a1: f64));
one!(variance, lognormal__variance, Lognormal::new(a0,a1), (a0: f64, a1: f64));
one!(deviation, lognormal__deviation, Lognormal::new(a0,a1), (a0: f64, a1: f64));
one!(skewness, lognormal__skewness, Lognormal::new(a0,a1), (a0: f64, a1: f64));
one!(kurtosis, lognormal__kurtosis, Lognormal::new(a0,a1), (a0: f64, a1: f64));
one!(median, lognormal__median, Lognormal::new(a0,a1), (a0: f64, a1: f64));
one!(modes, lognormal__modes, Lognormal::new(a0,a1), (a0: f64, a1: f64));
one!(sample, lognormal__sample, Lognormal::new(a0,a1), (a0: f64, a1: f64));
one!(indep, lognormal__indep, Lognormal::new(a0,a1), (a0: f64, a1: f64));
one!(indep_shared, lognormal__indep_shared, Lognormal::new(a0,a1), (a0: f64, a1: f64));
one!(indep_take, lognormal__indep_take, Lognormal::new(a0,a1), (a0: f64, a1: f64));
one!(indep_nth, lognormal__indep_nth, Lognormal::new(a0,a1), (a0: f64, a1: f64));
one!(indep_resume, lognormal__indep_resume, Lognormal::new(a0,a1), (a0: f64, a1: f64));
one!(indep_hint, lognormal__indep_hint, Lognormal::new(a0,a1), (a0: f64, a1: f64));
f!(lognormal__acc_mu(a0: f64, a1: f64) -> f64 = Lognormal::new(a0,a1).mu());
f!(lognormal__acc_sigma(a0: f64, a1: f64) -> f64 = Lognormal::new(a0,a1).sigma());
one!(distribution, pert__distribution, Pert::new(a0,a1,a2), (a0: f64, a1: f64, a2: f64));
one!(entropy, pert__entropy, Pert::new(a0,a1,a2), (a0: f64, a1: f64, a2: f64));
one!(density, pert__density, Pert::new(a0,a1,a2), (a0: f64, a1: f64, a2: f64));
one!(inverse, pert__inverse, Pert::new(a0,a1,a2), (a0: f64, a1: f64, a2: f64));
one!(mean, pert__mean, Pert::new(a0,a1,a2), (a0: f64, a1: f64, a2: f64));
one!(variance, pert__variance, Pert::new(a0,a1,a2), (a0: f64, a1: f64, a2: f64));
one!(deviation, pert__deviation, Pert::new(a0,a1,a2), (a0: f64, a1: f64, a2: f64));
one!(skewness, pert__skewness, Pert::new(a0,a1,a2), (a0: f64, a1: f64, a2: f64));
one!(kurtosis, pert__kurtosis, Pert::new(a0,a1,a2), (a0: f64, a1: f64, a2: f64));
one!(median, pert__median, Pert::new(a0,a1,a2), (a0: f64, a1: f64, a2: f64));
one!(modes, pert__modes, Pert::new(a0,a1,a2), (a0: f64, a1: f64, a2: f64));
one!(sample, pert__sample, Pert::new(a0,a1,a2), (a0: f64, a1: f64, a2: f64));
one!(indep, pert__indep, Pert::new(a0,a1,a2), (a0: f64, a1: f64, a2: f64));
one!(indep_shared, pert__indep_shared, Pert::new(a0,a1,a2), (a0: f64, a1: f64, a2: f64));
one!(indep_take, pert__indep_take, Pert::new(a0,a1,a2), (a0: f64, a1: f64, a2: f64));
one!(indep_nth, pert__indep_nth, Pert::new(a0,a1,a2), (a0: f64, a1: f64, a2: f64));
one!(indep_resume, pert__indep_resume, Pert::new(a0,a1,a2), (a0: f64, a1: f64, a2: f64));
one!(indep_hint, pert__indep_hint, Pert::new(a0,a1,a2), (a0: f64, a1: f64, a2: f64));
f!(pert__acc_a(a0: f64, a1: f64, a2: f64) -> f64 = Pert::new(a0,a1,a2).a());
f!(pert__acc_b(a0: f64, a1: f64, a2: f64) -> f64 = Pert::new(a0,a1,a2).b());
f!(pert__acc_c(a0: f64, a1: f64, a2: f64) -> f64 = Pert::new(a0,a1,a2).c());
f!(pert__acc_alpha(a0: f64, a1: f64, a2: f64) -> f64 = Pert::new(a0,a1,a2).alpha());
f!(pert__acc_beta(a0: f64, a1: f64, a2: f64) -> f64 = Pert::new(a0,a1,a2).beta());
one!(distribution, triangular__distribution, Triangular::new(a0,a1,a2), (a0: f64, a1: f64, a2: f64));
one!(entropy, triangular__entropy, Triangular::new(a0,a1,a2), (a0: f64, a1: f64, a2: f64));
one!(density, triangular__density, Triangular::new(a0,a1,a2), (a0: f64, a1: f64, a2: f64));
one!(inverse, triangular__inverse, Triangular::new(a0,a1,a2), (a0: f64, a1: f64, a2: f64));
one!(mean, triangular__mean, Triangular::new(a0,a1,a2), (a0: f64, a1: f64, a2: f64));
one!(variance, triangular__variance, Triangular::new(a0,a1,a2), (a0: f64, a1: f64, a2: f64));
one!(deviation, triangular__deviation, Triangular::new(a0,a1,a2), (a0: f64, a1: f64, a2: f64));
one!(skewness, triangular__skewness, Triangular::new(a0,a1,a2), (a0: f64, a1: f64, a2: f64));
one!(kurtosis, triangular__kurtosis, Triangular::new(a0,a1,a2), (a0: f64, a1: f64, a2: f64));
one!(median, triangular__median, Triangular::new(a0,a1,a2), (a0: f64, a1: f64, a2: f64));
one!(modes, triangular__modes, Triangular::new(a0,a1,a2), (a0: f64, a1: f64, a2: f64));
one!(sample, triangular__sample, Triangular::new(a0,a1,a2), (a0: f64, a1: f64, a2: f64));
one!(indep, triangular__indep, Triangular::new(a0,a1,a2), (a0: f64, a1: f64, a2: f64));
one!(indep_shared, triangular__indep_shared, Triangular::new(a0,a1,a2), (a0: f64, a1: f64, a2: f64));
one!(indep_take, triangular__indep_take, Triangular::new(a0,a1,a2), (a0: f64, a1: f64, a2: f64));
one!(indep_nth, triangular__indep_nth, Triangular::new(a0,a1,a2), (a0: f64, a1: f64, a2: f64));
one!(indep_resume, triangular__indep_resume, Triangular::new(a0,a1,a2), (a0: f64, a1: f64, a2: f64));
one!(indep_hint, triangular__indep_hint, Triangular::new(a0,a1,a2), (a0: f64, a1: f64, a2: f64));
f!(triangular__acc_a(a0: f64, a1: f64, a2: f64) -> f64 = Triangular::new(a0,a1,a2).a());
f!(triangular__acc_b(a0: f64, a1: f64, a2: f64) -> f64 = Triangular::new(a0,a1,a2).b());
f!(triangular__acc_c(a0: f64, a1: f64, a2: f64) -> f64 = Triangular::new(a0,a1,a2).c());
one!(distribution, uniform__distribution, Uniform::new(a0,a1), (a0: f64, a1: f64));
one!(entropy, uniform__entropy, Uniform::new(a0,a1), (a0: f64, a1: f64));
one!(density, uniform__density, Uniform::new(a0,a1), (a0: f64, a1: f64));
one!(inverse, uniform__inverse, Uniform::new(a0,a1), (a0: f64, a1: f64));
one!(mean, uniform__mean, Uniform::new(a0,a1), (a0: f64, a1: f64));
one!(variance, uniform__variance, Uniform::new(a0,a1), (a0: f64, a1: f64));
one!(deviation, uniform__deviation, Uniform::new(a0,a1), (a0: f64, a1: f64));
one!(skewness, uniform__skewness, Uniform::new(a0,a1), (a0: f64, a1: f64));
one!(kurtosis, uniform__kurtosis, Uniform::new(a0,a1), (a0: f64, a1: f64));
one!(median, uniform__median, Uniform::new(a0,a1), (a0: f64, a1: f64));
one!(sample, uniform__sample, Uniform::new(a0,a1), (a0: f64, a1: f64));
one!(indep, uniform__indep, Uniform::new(a0,a1), (a0: f64, a1: f64));
one!(indep_shared, uniform__indep_shared, Uniform::new(a0,a1), (a0: f64, a1: f64));
one!(indep_take, uniform__indep_take, Uniform::new(a0,a1), (a0: f64, a1: f64));
one!(indep_nth, uniform__indep_nth, Uniform::new(a0,a1), (a0: f64, a1: f64));
one!(indep_resume, uniform__indep_resume, Uniform::new(a0,a1), (a0: f64, a1: f64));
one!(indep_hint, uniform__indep_hint, Uniform::new(a0,a1), (a0: f64, a1: f64));
f!(uniform__acc_a(a0: f64, a1: f64) -> f64 = Uniform::new(a0,a1).a());
f!(uniform__acc_b(a0: f64, a1: f64) -> f64 = Uniform::new(a0,a1).b());
one!(distribution, gaussian_default__distribution, Gaussian::default(), ());
one!(entropy, gaussian_default__entropy, Gaussian::default(), ());
one!(density, gaussian_default__density, Gaussian::default(), ());
one!(inverse, gaussian_default__inverse, Gaussian::default(), ());
one!(mean, gaussian_default__mean, Gaussian::default(), ());
one!(variance, gaussian_default__variance, Gaussian::default(), ());
one!(deviation, gaussian_default__deviation, Gaussian::default(), ());
one!(skewness, gaussian_default__skewness, Gaussian::default(), ());
one!(kurtosis, gaussian_default__kurtosis, Gaussian::default(), ());
one!(median, gaussian_default__median, Gaussian::default(), ());
one!(modes, gaussian_default__modes, Gaussian::default(), ());
one!(sample, gaussian_default__sample, Gaussian::default(), ());
one!(indep, gaussian_default__indep, Gaussian::default(), ());
one!(indep_shared, gaussian_default__indep_shared, Gaussian::default(), ());
one!(indep_take, gaussian_default__indep_take, Gaussian::default(), ());
one!(indep_nth, gaussian_default__indep_nth, Gaussian::default(), ());
one!(indep_resume, gaussian_default__indep_resume, Gaussian::default(), ());
one!(indep_hint, gaussian_default__indep_hint, Gaussian::default(), ());
f!(gaussian_default__acc_mu() -> f64 = Gaussian::default().mu());
f!(gaussian_default__acc_sigma() -> f64 = Gaussian::default().sigma());
one!(distribution, logistic_default__distribution, Logistic::default(), ());
one!(entropy, logistic_default__entropy, Logistic::default(), ());
one!(density, logistic_default__density, Logistic::default(), ());
one!(inverse, logistic_default__inverse, Logistic::default(), ());
one!(mean, logistic_default__mean, Logistic::default(), ());
one!(variance, logistic_default__variance, Logistic::default(), ());
one!(deviation, logistic_default__deviation, Logistic::default(), ());
one!(skewness, logistic_default__skewness, Logistic::default(), ());
one!(kurtosis, logistic_default__kurtosis, Logistic::default(), ());
one!(median, logistic_default__median, Logistic::default(), ());
one!(modes, logistic_default__modes, Logistic::default(), ());
one!(sample, logistic_default__sample, Logistic::default(), ());
one!(indep, logistic_default__indep, Logistic::default(), ());
one!(indep_shared, logistic_default__indep_shared, Logistic::default(), ());
one!(indep_take, logistic_default__indep_take, Logistic::default(), ());
one!(indep_nth, logistic_default__indep_nth, Logistic::default(), ());
one!(indep_resume, logistic_default__indep_resume, Logistic::default(), ());
one!(indep_hint, logistic_default__indep_hint, Logistic::default(), ());
f!(logistic_default__acc_mu() -> f64 = Logistic::default().mu());
f!(logistic_default__acc_s() -> f64 = Logistic::default().s());
one!(distribution, lognormal_default__distribution, Lognormal::default(), ());
one!(entropy, lognormal_default__entropy, Lognormal::default(), ());
one!(density, lognormal_default__density, Lognormal::default(), ());
one!(inverse, lognormal_default__inverse, Lognormal::default(), ());
one!(mean, lognormal_default__mean, Lognormal::default(), ());
one!(variance, lognormal_default__variance, Lognormal::default(), ());
one!(deviation, lognormal_default__deviation, Lognormal::default(), ());
one!(skewness, lognormal_default__skewness, Lognormal::default(), ());
one!(kurtosis, lognormal_default__kurtosis, Lognormal::default(), ());
one!(median, lognormal_default__median, Lognormal::default(), ());
one!(modes, lognormal_default__modes, Lognormal::default(), ());
one!(sample, lognormal_default__sample, Lognormal::default(), ());
one!(indep, lognormal_default__indep, Lognormal::default(), ());
one!(indep_shared, lognormal_default__indep_shared, Lognormal::default(), ());
one!(indep_take, lognormal_default__indep_take, Lognormal::default(), ());
one!(indep_nth, lognormal_default__indep_nth, Lognormal::default(), ());
one!(indep_resume, lognormal_default__indep_resume, Lognormal::default(), ());
one!(indep_hint, lognormal_default__indep_hint, Lognormal::default(), ());
f!(lognormal_default__acc_mu() -> f64 = Lognormal::default().mu());
f!(lognormal_default__acc_sigma() -> f64 = Lognormal::default().sigma());
one!(distribution, uniform_default__distribution, Uniform::default(), ());
one!(entropy, uniform_default__entropy, Uniform::default(), ());
one!(density, uniform_default__density, Uniform::default(), ());
one!(inverse, uniform_default__inverse, Uniform::default(), ());
one!(mean, uniform_default__mean, Uniform::default(), ());
one!(variance, uniform_default__variance, Uniform::default(), ());
one!(deviation, uniform_default__deviation, Uniform::default(), ());
one!(skewness, uniform_default__skewness, Uniform::default(), ());
one!(kurtosis, uniform_default__kurtosis, Uniform::default(), ());
one!(median, uniform_default__median, Uniform::default(), ());
one!(sample, uniform_default__sample, Uniform::default(), ());
one!(indep, uniform_default__indep, Uniform::default(), ());
one!(indep_shared, uniform_default__indep_shared, Uniform::default(), ());
one!(indep_take, uniform_default__indep_take, Uniform::default(), ());
one!(indep_nth, uniform_default__indep_nth, Uniform::default(), ());
one!(indep_resume, uniform_default__indep_resume, Uniform::default(), ());
one!(indep_hint, uniform_default__indep_hint, Uniform::default(), ());
f!(uniform_default__acc_a() -> f64 = Uniform::default().a());
f!(uniform_default__acc_b() -> f64 = Uniform::default().b());
