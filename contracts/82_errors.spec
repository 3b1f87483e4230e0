; Error values.
(fn "(*UnmarshalFieldError).Unwrap" (params e) (props C06)
  (requires error (/= e 0))
  (ret e.Err))
(fn "(*UnmarshalFieldError).Error" (params e) (props C06)
  (requires error (/= e 0)))
(fn "(*InvalidUnmarshalError).Error" (params e) (props C14)
  (requires error (/= e 0)))
